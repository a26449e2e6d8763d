"""Cancelling the last refinement of a run."""
import ast

from hypothesis import strategies as st

import c24
import oracle as O
from pbt import Part, Violation

PROPERTY = 'C30'
SCALE = 1
RULE = ('searches of the main program around known continued fractions, each repeated with the last refinement cancelled '
        '(a KeyboardInterrupt) at random steps of any of the functions at work there; non-trivial: a cancelled run that '
        'has results to save')


@st.composite
def case(draw):
    hp = draw(st.sampled_from([2, 3, 4, 6, 8]))
    r = draw(c24.run('generate', 'false', hp))
    prec = list(r['prec'])
    prec[4] = draw(st.sampled_from([100, 200, 300]))
    if draw(st.booleans()):
        # the last refinement has something to do
        prec[1], prec[3], prec[5] = draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.sampled_from([10, 16, 20]))
    return {'hp': hp, 'iters': draw(st.sampled_from([60, 100])), 'runs': [dict(r, prec=prec)], 'table': 'table',
            'picks': draw(st.lists(st.tuples(st.integers(0, 60), st.integers(0, 10 ** 6) | st.integers(0, 12)), min_size=2,
                                   max_size=6))}


def read(rows):
    return [[O.tuplify(ast.literal_eval(row[i])) for i in (0, 1, 2, 4)] for row in rows]


def check(c, env):
    r = c['runs'][0]
    first = c24.text_of(c24.options(c, r))
    again = c24.text_of(c24.options(c, dict(r, op='use')))
    out = env.ok('cancelled', first=first, again=again, picks=[list(p) for p in c['picks']])
    what = repr(c)
    full = None
    for n, res in enumerate(out):
        what = 'cancelled in %s: %r' % (res['fired'], c) if res['fired'] else 'uncancelled: %r' % (c,)
        if res['how'][0] != 'ok':
            raise Violation('%r, %s' % (res['how'], what))
        if res['gone'] or res['changed']:
            raise Violation('files are gone (%r) or changed (%r), %s' % (res['gone'], res['changed'], what))
        dirs = [f for f in res['new'] if f.endswith('/') and f != 'results/']
        want = [dirs[0] + f for f in ('results.csv', 'config.ini', 'results.pdf')] if len(dirs) == 1 else None
        if want is None or any(f not in res['new'] for f in want):
            raise Violation('the new files are %r, %s' % (res['new'], what))
        if res['saved'][want[1]][0][0] != 'ok':
            raise Violation('the saved configuration can\'t be loaded, %s' % what)
        rows = res['csv'][want[0]]
        if len(rows) < 2:
            raise Violation('the results begin with %r, %s' % (rows, what))
        rows = rows[2:]
        if res['docs'] != [[dirs[0] + 'results', len(rows)]]:
            raise Violation('%d results, but the documents %r, %s' % (len(rows), res['docs'], what))
        if n == 0:
            full = read(rows)
            mo = {'pfs': r['pfs'], 'hp': c['hp'], 'cls': r['cls'], 'iters': c['iters']}
            if r['special']:
                mo['special'] = r['special']
            entries = O.table_entries(mo, [[r['ra'], r['rb']]])
            # what the refinement before the last one lets pass
            s = c24.Search(c, dict(r, prec=r['prec'][:4] + r['prec'][2:4]), entries)
            continue
        if not res['fired']:
            env.label('not reached')
            if sorted(read(rows)) != sorted(full):
                raise Violation('%r instead of %r, %s' % (rows, full, what))
            continue
        # (its right-hand side is as precise as the more precise of both refinements demands)
        mine = c24.check_rows(s, rows, what, env, repeated=True)
        for x in full:
            if not any(list(y[:3]) == list(x[:3]) and c24.lhs_equal(s.kind, x[3], y[3]) for y in mine):
                raise Violation('%r is lost, there is only %r, %s' % (x, rows, what))
        env.label('in ' + res['fired'].split()[1])
        if len(rows) > len(full):
            env.label('more than uncancelled')
        env.nontrivial(len(rows))


PARTS = [Part('cancelling', case(), check, 240)]
