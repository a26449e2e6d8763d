import copy

from hypothesis import strategies as st

import oracle as O
import strat as S
import c08
import mitmcase as M
from pbt import Part, Violation

PROPERTY = 'C09'
RULE = ('random table histories and search sessions, saved and loaded at random points (by dill and pickle, every '
        'protocol, also in another process), against the same history without; non-trivial: the loaded object has '
        'entries, and is used further')


@st.composite
def table_case(draw):
    c = draw(c08.case())
    n = draw(st.integers(1, 3))
    at = sorted(draw(st.lists(st.integers(0, len(c['steps'])), min_size=n, max_size=n)))
    c['saves'] = [[i, draw(st.sampled_from(['dill', 'pickle', 'copy'])), draw(st.integers(2, 4))] for i in at]
    return c


def table_check(c, env):
    sent, expect, model = c08.plan(c)
    want = env.ok('table_history', accuracy=c['acc'], steps=sent)
    steps, idx = [], []
    saves = list(c['saves'])
    for i, s in enumerate(sent):
        while saves and saves[0][0] == i:
            _, how, protocol = saves.pop(0)
            steps.append(['copy'] if how == 'copy' else ['pickle', how, protocol])
        idx.append(len(steps))
        steps.append(s)
    out = env.ok('table_history', accuracy=c['acc'], steps=steps)
    for st_, g in zip(steps, out):
        if st_[0] in ('copy', 'pickle') and g[0] != 'ok':
            raise Violation('%r failed: %r' % (st_, g))
        if st_[0] == 'pickle' and g[1] != 'DecimalHashTable':
            raise Violation('what was loaded is a %s' % g[1])
    got = [out[i] for i in idx]
    for i, (s, w, g) in enumerate(zip(sent, want, got)):
        if w != g:
            raise Violation('%r gives %r, but %r if the table was saved and loaded before: %r' % (s, w, g, steps))
    env.label(*{s[1] for s in c['saves']})
    if model.old:
        env.label('several accuracies')
    env.nontrivial(bool(model.d) and c['saves'][0][0] < len(c['steps']))


@st.composite
def mitm_case(draw):
    s = draw(M.session())
    n = draw(st.integers(1, 2))
    s['saves'] = draw(st.lists(st.integers(1, len(s['steps'])), min_size=n, max_size=n))
    s['protocol'] = draw(st.sampled_from([-1, -1, 2, 3]))
    s['process'] = draw(st.booleans())
    return s


def mitm_check(c, env):
    steps = c['steps'] + [['table'], ['count'], ['get']]
    kind, want = env.call('mitm', steps=steps)
    if kind != 'ok':
        raise Violation('the session failed: %r' % (want,))
    at = sorted(set(c['saves']))
    if c['process']:
        i = at[0]
        first, data = env.ok('mitm_dump', steps=steps[:i], protocol=c['protocol'])
        got = first + env.other.ok('mitm_load', data=data, steps=steps[i:])
        env.label('another process')
    else:
        with_saves = []
        idx = []
        for i, s in enumerate(steps):
            if i in at:
                with_saves.append(['pickle'])
            idx.append(len(with_saves))
            with_saves.append(s)
        out = env.ok('mitm', steps=with_saves)
        got = [out[i] for i in idx]
        env.label('same process')
    for s, w, g in zip(steps, want, got):
        if s[0] == 'table':
            w, g = norm_table(w), norm_table(g)
        if s[0] in ('get', 'csv', 'eqns', 'count', 'table', 'rebuild') and w != g:
            raise Violation('%s gives %r, but %r when saved and loaded before: %r' % (s[0], w, g, c))
    env.label(*{s[0] for s in c['steps']})
    env.nontrivial(bool(want[-3]) and at[0] < len(c['steps']))


def norm_table(t):
    return sorted(([k, sorted(v, key=repr)] for k, v in t), key=repr)


PARTS = [Part('tables', table_case(), table_check, 1500), Part('searches', mitm_case(), mitm_check, 250)]
