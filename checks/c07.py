from hypothesis import strategies as st

import oracle as O
import strat as S
import c05
import c06
import c13
from pbt import Part, Violation

PROPERTY = 'C07'
RULE = ('random ranges of every family of polynomials and kind of left-hand side, with and without skips; non-trivial: at '
        'least 3 elements are enumerated')


@st.composite
def case(draw):
    cls = draw(st.sampled_from(['normal', 'indexed', 'sparse', 'sparse']))
    if cls == 'normal':
        c = draw(c05.case())
    elif cls == 'indexed':
        c = draw(c06.indexed_case())
    else:
        c = draw(c06.sparse_case())
    c['cls'] = cls
    if draw(st.booleans()):
        c['avoid'] = c['exp'] = False
    return c


def check(c, env):
    kw = {'avoid_int_roots': c['avoid'], 'enum_only_exp_conv': c['exp'], 'should_gen_contfrac': False}
    if c['cls'] == 'sparse':
        kw['special_params'] = c['n']
    r = env.ok('enum_polys', cls=c['cls'], range_a=c['ra'], range_b=c['rb'], kw=kw)
    n, est = len(r['items']), r['est']
    if not isinstance(est, int):
        raise Violation('the announced length %r is no integer' % (est,))
    if n > est:
        raise Violation('%s: %d pairs were enumerated, %d announced' % (c['cls'], n, est))
    total = sum(1 for _ in O.enum_pairs(c['cls'], c['ra'], c['rb'], c.get('n'), False, False))
    if not c['avoid'] and not c['exp']:
        if n == total and est != n:
            raise Violation('%s: nothing is skipped, %d pairs were enumerated but %d announced' % (c['cls'], n, est))
        env.label(c['cls'] + ' without skips')
    else:
        env.label(c['cls'] + ' with skips')
    env.nontrivial(n >= 3)


@st.composite
def lhs_case(draw):
    return draw(c13.case())


def lhs_check(c, env):
    r = env.ok('enum_lhs', kind=c['kind'], params=c['params'], target=c['target'])
    n, est = len(r['items']), r['len']
    if n > est:
        raise Violation('%s: %d left-hand sides were enumerated, %d announced' % (c['kind'], n, est))
    total = c13.combinations(c)
    if n == total and est != n:
        raise Violation('%s: nothing is skipped, %d were enumerated but %d announced' % (c['kind'], n, est))
    env.label(c['kind'], 'nothing skipped' if n == total else 'skips')
    env.nontrivial(n >= 3)


PARTS = [Part('polys', case(), check, 1500,
              examples=[{'cls': 'sparse', 'ra': [[[1, 2]], [[1, 2]]], 'rb': [[[1, 2]], [[1, 2]]], 'n': [3, 3],
                         'avoid': False, 'exp': False}]),
         Part('lhs', lhs_case(), lhs_check, 900)]
