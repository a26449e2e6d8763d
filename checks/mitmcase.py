"""Random search sessions, shared by several checks."""
from hypothesis import strategies as st

import oracle as O
from pbt import Violation
import strat as S
import c06
import c13


@st.composite
def settings(draw, hp=(1, 2, 2, 3, 3, 4, 6), iters=(4, 7, 12, 20, 33)):
    cls = draw(st.sampled_from(['normal', 'normal', 'normal', 'indexed', 'sparse']))
    npf = draw(st.sampled_from([1, 1, 2, 3, 4]))
    pfs = draw(st.lists(st.integers(0, 11) | st.integers(0, O.NPOST - 1), min_size=npf, max_size=npf, unique=True))
    o = {'target': {'value': draw(S.targets())}, 'pfs': pfs, 'hp': draw(st.sampled_from(hp)), 'cls': cls,
         'iters': draw(st.sampled_from(iters)), 'trunc': draw(st.sampled_from([True, True, True, True, False])),
         'exp_conv': draw(st.sampled_from([True, False]))}
    if draw(st.booleans()):
        o.pop('exp_conv')
    if cls == 'sparse':
        o['special'] = [draw(st.integers(1, 3)), draw(st.integers(1, 4))]
    return o


@st.composite
def ranges(draw, o, la=4, lb=8):
    if o.get('cls') == 'sparse':
        ra = S.shrink_to(draw(c06.sparse_ranges(o['special'][0], 2)), la)
        rb = S.shrink_to(draw(c06.sparse_ranges(o['special'][1], 3)), lb)
        while c06.placements(ra, o['special'][0]) > 10:
            ra = ra[:-1]
        while c06.placements(rb, o['special'][1]) > 20:
            rb = rb[:-1]
        return ra, rb
    return draw(S.interlace(limit=la)), draw(S.interlace(limit=lb))


@st.composite
def lhs(draw, limit=14):
    if draw(st.booleans()):
        while True:
            p = draw(c13.ulcd_params())
            n = 1
            for i, r in enumerate(p):
                n *= len(O.norm_range(r, symmetric=i < 3))
            if n > 150:
                p = [[1, 4], [1, 3], draw(c13.int_range()), [-2, 4]]
            return ['ulcd', p]
    return ['rationalfunc', draw(c13.rational_params(limit=limit))]


@st.composite
def session(draw):
    o = draw(settings())
    ra, rb = draw(ranges(o))
    steps = [['new', o], ['build', ra, rb]]
    if draw(st.booleans()):
        ra, rb = draw(ranges(o))
        steps.append(['build', ra, rb, draw(st.booleans())])
    steps.append(['find'] + draw(lhs()))
    steps.append(['get'])
    for _ in range(draw(st.integers(0, 3))):
        steps.append(draw(st.sampled_from([['refine', 1, 20], ['refine', 2, 20], ['refine', 1, 5], ['uniq'], ['posroots'],
                                           ['find'] + draw(lhs()), ['get'], ['rebuild', 7], ['table'], ['eqns', 3]])))
    return {'steps': steps}


@st.composite
def arguments(draw, name, counts):
    """A program with a wrong number of arguments."""
    n = draw(st.sampled_from(counts))
    return [name, [draw(st.sampled_from(['4', 'tables', 'a.pkl', 'config.ini', 'dist'])) for _ in range(n)]]


def check_arguments(c, env):
    """A wrong number of arguments does nothing but tell the usage."""
    name, argv = c
    r, same, launched = env.ok('usage', name=name, argv=argv, files=['config.ini', 'tables/a.pkl', 'a.pkl', 'dist/x.ini'])
    if r[0] != 'ok' or not same or launched or name not in r[1]:
        raise Violation('%s %s: %r%s' % (name, ' '.join(argv), r, '' if same else ', and files are changed'))
    env.nontrivial()
