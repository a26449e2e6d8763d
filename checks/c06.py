from collections import Counter

from hypothesis import strategies as st

import oracle as O
import strat as S
import c05
from pbt import Part, Violation

PROPERTY = 'C06'
RULE = ('random ranges for the indexed and the sparse family (ragged, interlaced; degree bounds below, at and above the '
        'number of coefficients); non-trivial: at least 2 pairs are enumerated and some transformed polynomial differs '
        'from the coefficients it came from')


@st.composite
def indexed_case(draw):
    big = draw(st.integers(0, 5)) == 0
    maxlen = 9 if big else 4
    ra = draw(S.interlace(maxlen=4, limit=8))
    rb = draw(S.interlace(maxlen=maxlen, limit=25, lo=-3 if big else -5, hi=3 if big else 5))
    if draw(st.integers(0, 9)) == 0:
        # many coefficients, of one or two values each
        n = draw(st.integers(10, 24))
        rb = S.shrink_to([[[x, x + 1 + (draw(st.integers(0, 4)) == 0)] for x in
                           draw(st.lists(st.integers(-2, 3), min_size=n, max_size=n))]
                          for _ in range(draw(st.sampled_from([1, 1, 2])))], 6)
        ra = S.shrink_to(ra, 4)
    if draw(st.booleans()):
        ra, rb = S.shrink_to(rb, 8), S.shrink_to(ra, 25)
    return {'ra': ra, 'rb': rb, 'avoid': draw(st.booleans()), 'exp': draw(st.booleans())}


def run(c, env, cls, special=None):
    kw = {'avoid_int_roots': c['avoid'], 'enum_only_exp_conv': c['exp'], 'should_gen_contfrac': False}
    if special:
        kw['special_params'] = special
    r = env.ok('enum_polys', cls=cls, range_a=c['ra'], range_b=c['rb'], kw=kw)
    env.label('avoid=%s' % c['avoid'], 'exp=%s' % c['exp'],
              'interlaced' if len(c['ra']) + len(c['rb']) > 2 else 'single')
    return Counter((O.tuplify(pa), O.tuplify(pb)) for pa, pb in r['items'])


def indexed_check(c, env):
    must, may, skipped, squeezed = c05.expected(c, 'indexed')
    got = run(c, env, 'indexed')
    c05.compare(got, must, may, 'indexed')
    if skipped:
        env.label('skips')
    env.nontrivial(len(got) >= 2 and any(len(p) > 1 for p in c['ra'] + c['rb']))


@st.composite
def sparse_ranges(draw, n, limit):
    k = draw(st.integers(1, min(n, 4)))
    m = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    if draw(st.booleans()):
        p = draw(S.poly_ranges(k, k, -4, 4))
        out = [[list(r) for r in p] for _ in range(m)]
    else:
        out = [draw(S.poly_ranges(k, k, -4, 4)) for _ in range(m)]
    return S.shrink_to(out, limit)


def placements(r, n):
    import math
    return math.comb(n, len(r[0])) ** len(r)


@st.composite
def sparse_case(draw):
    na, nb = draw(st.sampled_from([1, 2, 3, 4, 4, 6])), draw(st.sampled_from([1, 2, 3, 4, 5, 5, 8]))
    ra = draw(sparse_ranges(na, 4))
    rb = draw(sparse_ranges(nb, 6))
    # keep the number of polynomials within bounds
    while placements(ra, na) > 40:
        ra = ra[:-1]
    while placements(rb, nb) > 150:
        rb = rb[:-1]
    if placements(ra, na) * placements(rb, nb) > 800:
        ra, rb = S.shrink_to(ra, 1), S.shrink_to(rb, 2)
    return {'ra': ra, 'rb': rb, 'n': [na, nb], 'avoid': draw(st.booleans()), 'exp': draw(st.booleans())}


def sparse_check(c, env):
    must, may, skipped, squeezed = c05.expected(c, 'sparse', c['n'])
    got = run(c, env, 'sparse', c['n'])
    for k in must:
        if k not in got:
            raise Violation('sparse: the pair %r is missing' % (k,))
    for k, n in got.items():
        if k not in may:
            raise Violation('sparse: the pair %r was enumerated, which is none of the family' % (k,))
        if n > may[k]:
            raise Violation('sparse: the pair %r was enumerated %d times, there are %d such' % (k, n, may[k]))
    if skipped:
        env.label('skips')
    if len(c['ra']) > 1 and len(c['rb']) > 1:
        env.label('both interlaced')
    env.nontrivial(len(got) >= 2 and (c['n'][0] > len(c['ra'][0]) or c['n'][1] > len(c['rb'][0])))


PARTS = [Part('indexed', indexed_case(), indexed_check, 1400,
              examples=[{'ra': [[[1, 2]]], 'rb': [[[1, 2], [0, 2], [0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [1, 2]]],
                         'avoid': False, 'exp': False}]),
         Part('sparse', sparse_case(), sparse_check, 1400,
              examples=[{'ra': [[[1, 3]]], 'rb': [[[1, 2], [2, 3]], [[1, 2], [2, 3]]], 'n': [2, 3], 'avoid': False,
                         'exp': False}])]
