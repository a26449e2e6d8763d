import math
from fractions import Fraction as Fr

import mpmath
from hypothesis import strategies as st

import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C15'
RULE = ('random results whose b polynomials are products of chosen factors (integer, rational, double, complex, negative '
        'roots, powers of x, leading zeros) or random, cases with roots too ill-conditioned or too close to an integer '
        'not judged; non-trivial: some results are dropped and some kept')


@st.composite
def b_poly(draw):
    if draw(st.integers(0, 3)) == 0:
        return draw(S.coeffs(6, -9, 9))
    p = [draw(st.sampled_from([1, -1, 2, 3, -5]))]
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 9))
        if k < 3 and draw(st.integers(0, 5)) == 0:
            f = [-draw(st.integers(10, 99) | st.integers(100, 4000)), 1]
        elif k < 3:
            f = [-draw(st.integers(1, 9)), 1]
        elif k < 5:
            f = [draw(st.integers(1, 9)), 1]
        elif k < 7:
            f = [draw(st.integers(-9, 9)), draw(st.sampled_from([2, 3, 5, 7]))]
        elif k == 7:
            f = [draw(st.integers(1, 9)), draw(st.integers(-2, 2)), 1]
        elif k == 8:
            f = [-draw(st.sampled_from([2, 3, 5, 6, 7, 10])), 0, 1]
        else:
            f = [0, 1]
        # now and then a multiple root
        for _ in range(draw(st.integers(2, 8)) if draw(st.integers(0, 11)) == 0 else 1):
            p = [int(x) for x in O.pmul(p, f)]
        if not p:
            return [0]
        if len(p) > 12:
            break
    return p + [0] * draw(st.sampled_from([0, 0, 1, 2]))


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    out = []
    for _ in range(n):
        k = draw(st.sampled_from([1, 1, 2, 3]))
        out.append({'a': draw(S.cf_polys(2, 2, -3, 3)), 'b': [draw(b_poly()) for _ in range(k)],
                    'pf': draw(st.integers(0, 11)), 'lhs': draw(st.sampled_from([['ulcd', [1, 2, 1, 3]],
                                                                                ['rationalfunc', [[0, 1], [2, 1], 3]]]))})
    return {'results': out}


@st.composite
def long_case(draw):
    rs = draw(case())['results'] + draw(case())['results']
    n, s = draw(st.integers(20, 150)), draw(st.integers(1, 9))
    return {'results': [rs[(i * i + s * i) % len(rs)] for i in range(n)]}


def deriv(p, m):
    for _ in range(m):
        p = [i * c for i, c in enumerate(p)][1:]
    return p


def has_root(p):
    """Has p a positive integer root? Bad if the zeros can't be told by double precision."""
    c = O.strip_powers(p)
    if not c:
        raise O.Bad('zero polynomial')
    if len(c) == 1:
        return False
    ints = O.integer_roots(c)
    for r in ints:
        m = 1
        while O.poly_at(deriv(c, m), r) == 0:
            m += 1
        s = sum(abs(k) * abs(r) ** i for i, k in enumerate(c))
        d = Fr(1, 10 ** 15) * len(c) * s * math.factorial(m) / abs(O.poly_at(deriv(c, m), r))
        if float(d) ** (1.0 / m) > 0.2:
            raise O.Bad('ill-conditioned')
    rest = list(c)
    for r in ints:
        while len(rest) > 1 and O.poly_at(rest, r) == 0:
            rest = [int(x) if x.denominator == 1 else x for x in O.pdivmod(rest, [-r, 1])[0]]
    if len(rest) > 1:
        rest = [Fr(x) for x in rest]
        simple = O.pdivmod(rest, O.pgcd(rest, deriv(rest, 1)))[0]
        try:
            zs = mpmath.polyroots([O.mp_of(Fr(x)) for x in simple[::-1]], maxsteps=200, extraprec=100)
        except mpmath.libmp.libhyper.NoConvergence:
            raise O.Bad('roots')
        ds = [[float(k) for k in deriv(c, m)] for m in range(len(c))]
        for z in zs:
            z = complex(z)
            away = abs(z - round(z.real))
            if away < 0.03:
                raise O.Bad('close to an integer')
            # how far rounding errors may move it
            s = sum(abs(k) * abs(z) ** i for i, k in enumerate(ds[0])) * len(c) * 1e-15
            slopes = [abs(sum(k * z ** i for i, k in enumerate(d))) for d in ds]
            if not any(sl and (s * math.factorial(m) / sl) ** (1.0 / m) < away / 2
                       for m, sl in enumerate(slopes) if m):
                raise O.Bad('ill-conditioned')
    return any(r > 0 for r in ints)


def check(c, env):
    want = []
    marked = []
    for r in c['results']:
        try:
            bad = [has_root(p) for p in r['b']]
        except O.Bad:
            env.label('not judged')
            continue
        i = len(marked)
        marked.append({'ab': [r['a'], r['b']], 'lhs': r['lhs'], 'pf': r['pf'], 'conv': ['exp', [i, 1]]})
        if not any(bad):
            want.append(i)
        else:
            env.label('dropped, degree %d' % max(O.degree(p) for p, b in zip(r['b'], bad) if b))
            if not bad[0]:
                env.label('root not in the first of an interlace')
    if not marked:
        return
    out = env.ok('mitm', steps=[['new', {'target': {'value': '1.3'}, 'pfs': [0], 'hp': 5, 'iters': 5}],
                                ['set', marked], ['get'], ['posroots'], ['get']])
    before, after = out[2], out[4]
    if after != [before[i] for i in want]:
        raise Violation('of the results with b %r those with %r are left, instead of %r'
                        % ([m['ab'][1] for m in marked], [r['ab'][1] for r in after], [marked[i]['ab'][1] for i in want]))
    env.nontrivial(0 < len(want) < len(marked))


_R = {'a': [[1]], 'pf': 0, 'lhs': ['ulcd', [1, 2, 1, 3]]}
PARTS = [Part('lists', case(), check, 2500, examples=[{'results': [dict(_R, b=[[1, 1]]), dict(_R, b=[[-3, 2]]),
                                                                  dict(_R, b=[[-7, 2]]), dict(_R, b=[[-2, 1]])]}]),
    Part('long', long_case(), check, 40)]
