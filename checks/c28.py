from hypothesis import strategies as st

import mitmcase as M
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C28'
SCALE = 1
RULE = ('random tables, several entries per key, of which some have b polynomials that are zero or have integer roots; '
        'non-trivial: the tool has to remove some and keep some entries of the same table, and several share a key')

KEYS = ['0.12345', '0.54321', '0.99', '0.500001', '0.00012']


@st.composite
def bpoly(draw):
    how = draw(st.integers(0, 7))
    if how == 7:
        return draw(S.coeffs(7, -6, 6, minlen=4))
    if how == 6:
        return [r[0] for r in draw(S.large_poly_ranges())]
    if how == 0:
        return [0] * draw(st.integers(1, 3))
    if how == 1:
        # (m x - r)(n x - s), perhaps times powers of x
        m, n = draw(st.sampled_from([(1, 0), (1, 1), (2, 1), (2, 3), (3, 2), (-1, 1)]))
        r, s = draw(st.integers(-6, 6)), draw(st.integers(-6, 6))
        p = [r * s, -(m * s + n * r), m * n] if n else [-r, m]
        return [0] * draw(st.integers(0, 2)) + p + [0] * draw(st.integers(0, 1))
    return draw(S.coeffs(3, -6, 6))


@st.composite
def entry(draw):
    nb = draw(st.sampled_from([1, 1, 2, 3, 4, 5]))
    return [draw(st.sampled_from(KEYS)), [draw(S.cf_polys(2, 2, -3, 3)), [draw(bpoly()) for _ in range(nb)]],
            draw(st.integers(0, 11))]


@st.composite
def case(draw):
    return {'entries': draw(st.lists(entry(), min_size=1, max_size=14)), 'hp': draw(st.sampled_from([2, 3, 5])),
            'name': draw(st.sampled_from(['table_v1.pkl', 'x.pkl', 'dir/t.v2.pkl', 'noextension', 'a.b/c', 'a.pkl.d/t.pkl', 't.pkl.pkl'])),
            'older': draw(st.booleans()), 'cli': draw(st.booleans())}


def skip(b):
    r = [O.root_skip(p) for p in b]
    return True if True in r else (None if None in r else False)


def check(c, env):
    o = {'target': {'value': '1.234'}, 'pfs': [0], 'hp': c['hp'], 'iters': 5}
    steps = [['new', o], ['entries', c['entries']], ['params']]
    if c['older']:
        steps = [['new', dict(o, hp=c['hp'] + 2)], ['redefine', o]] + steps[1:]
    r = env.ok('fix_table', name=c['name'], steps=steps + [['table'], ['history']], cli=c['cli'],
               after=[['table'], ['history'], ['has_params'], ['count']])
    what = repr(c)
    if r['how'][0] != 'ok':
        raise Violation('the tool failed: %r: %s' % (r['how'], what))
    root, ext = (c['name'][:-4], '.pkl') if c['name'].endswith('.pkl') else (c['name'], '')
    if r['new'] != [root + '_fixed' + ext]:
        raise Violation('it wrote %r: %s' % (r['new'], what))
    if any(r['files'].get(f) != h for f, h in r['before'].items()):
        raise Violation('it changed the table it was given: %s' % what)
    table, history, has_params, _ = r['after']
    before = {k: v for k, v in r['shown'][-2]}
    after = {k: v for k, v in table}
    removed = kept = 0
    shared = False
    for k, v in before.items():
        w = [e for e in v if skip(e[0][1]) is not True]
        opens = [e for e in w if skip(e[0][1]) is None]
        removed += len(v) - len(w)
        kept += len(w)
        shared = shared or len(v) > 1
        got = after.get(k, [])
        if opens:
            got = [e for e in got if skip(e[0][1]) is not None]
            w = [e for e in w if skip(e[0][1]) is not None]
        elif (k in after) != bool(w):
            raise Violation('the key %s is %s: %s' % (k, 'left empty' if k in after else 'lost', what))
        if got != w:
            raise Violation('of %r under %s, %r were kept instead of %r: %s' % (v, k, got, w, what))
    for k in after:
        if k not in before:
            raise Violation('there is a new key %s: %s' % (k, what))
    if not has_params or history != r['shown'][-1]:
        raise Violation('the parameters or accuracies of the table changed: %s' % what)
    env.nontrivial(removed and kept and shared)


PARTS = [Part('tables', case(), check, 1200), Part('arguments', M.arguments('fix_hashtable_filter_init_b_root.py', (0, 2, 3)),
                                                   M.check_arguments, 20, shards=1)]
