"""Reference semantics, written from the documentation, in exact arithmetic (Fractions) or with many guard digits.
Nothing here comes from, or calls, the code under test."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath
from mpmath import mpf

DPS = 120
mpmath.mp.dps = DPS


# ---------------------------------------------------------------------------------------------------- numbers

def num(x):
    """Decodes a number: int | Fraction | float | 'nan' | 'inf' | '-inf'. mpf come as exact Fractions."""
    if isinstance(x, (int, bool)):
        return x
    if isinstance(x, dict):
        if 'm' in x:
            m = x['m']
            if isinstance(m, str):
                return m
            s, man, e = m
            v = Fr(man) * (Fr(2) ** e)
            return -v if s else v
        if 'f' in x:
            f = float(x['f'])
            if f != f:
                return 'nan'
            if f in (float('inf'), float('-inf')):
                return 'inf' if f > 0 else '-inf'
            return Fr(f)
        if 'q' in x:
            return Fr(*x['q'])
    raise ValueError('not a number: %r' % (x,))


def is_num(x):
    return isinstance(x, (int, Fr))


def mp_of(fr):
    return mpf(fr.numerator) / mpf(fr.denominator) if isinstance(fr, Fr) else mpf(fr)


def frac_of(s):
    """Exact value of a decimal string."""
    return Fr(s)


def dec_str(fr, digits=70):
    """A decimal string approximating a Fraction to that many significant digits."""
    return mpmath.nstr(mp_of(Fr(fr)), digits, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)


def close(x, y, rel, absolute=Fr(0)):
    x, y = Fr(x), Fr(y)
    return abs(x - y) <= rel * max(abs(x), abs(y)) + absolute


# ---------------------------------------------------------------------------------------------------- polynomials

def poly_at(c, x):
    r = 0
    for k in reversed(c):
        r = r * x + k
    return r


def degree(c):
    d = -1
    for i, k in enumerate(c):
        if k:
            d = i
    return d


def strip_powers(c):
    """Drops factors of x and leading zeros."""
    c = list(c)
    while c and c[0] == 0:
        c.pop(0)
    while c and c[-1] == 0:
        c.pop()
    return c


def root_floors(c, bound):
    """Integers k such that every real root within the bound lies in one of the [k, k+1]: between the ones of the
    derivative the polynomial is monotone, and its sign tells."""
    if len(c) < 2:
        return set()
    if len(c) == 2:
        return {-c[0] // c[1]}
    found = root_floors([i * k for i, k in enumerate(c)][1:], bound)
    points = sorted({-bound, bound} | {p for k in found for p in (k, k + 1) if -bound < p < bound})
    for lo, hi in zip(points, points[1:]):
        s, t = poly_at(c, lo), poly_at(c, hi)
        if s == 0:
            found.add(lo)
        if t == 0:
            found.add(hi)
        if (s < 0) == (t < 0) or s == 0 or t == 0:
            continue
        while hi - lo > 1:
            m = (lo + hi) // 2
            if (poly_at(c, m) < 0) == (s < 0):
                lo = m
            else:
                hi = m
        found.add(lo)
    return found


def integer_roots(c):
    """All nonzero integer roots."""
    c = strip_powers(c)
    if len(c) < 2:
        return []
    bound = 2 + max(abs(k) for k in c) // abs(c[-1])
    return sorted({r for k in root_floors(c, bound) for r in (k, k + 1) if r and poly_at(c, r) == 0})


# ---------------------------------------------------------------------------------------------------- continued fractions

def nest(p):
    """A single polynomial or an interlace -> list of polynomials."""
    return [list(p)] if p and not isinstance(p[0], (list, tuple)) else [list(q) for q in p]


def ab_values(a, b, n):
    a, b = nest(a), nest(b)
    return ([poly_at(a[i % len(a)], i) for i in range(n + 1)],
            [None] + [poly_at(b[i % len(b)], i) for i in range(1, n + 1)])


def convergents(av, bv, first=None):
    """All (P_i, Q_i) by the forward recurrence."""
    if first is None:
        p, p1, q, q1 = av[0], 1, 1, 0
    else:
        (p, p1), (q, q1) = first
    out = [(p, q)]
    for i in range(1, len(av)):
        p, p1 = av[i] * p + bv[i] * p1, p
        q, q1 = av[i] * q + bv[i] * q1, q
        out.append((p, q))
    return out


class Bad(Exception):
    """The value is undefined, or too ill-conditioned to be judged."""


def cf_value(a, b, depth, dps=50):
    """(value, error bound) of a(0)+b(1)/(a(1)+...b(depth-1)/a(depth-1)) in dps-digit floating arithmetic, by interval-like
    error propagation along the backward recurrence.  Bad if a tail vanishes (or nearly)."""
    av, bv = ab_values(a, b, depth - 1)
    return list_value(av, bv, dps)


def list_value(av, bv, dps=50):
    eps = mpf(10) ** (1 - dps)
    with mpmath.workdps(dps + 60):
        r, err = mpf(av[-1]), abs(mpf(av[-1])) * eps
        for i in range(len(av) - 1, 0, -1):
            if abs(r) <= 1000 * err or r == 0:
                raise Bad('vanishing tail')
            t = mpf(bv[i]) / r
            terr = abs(t) * (err / abs(r) * 2 + 2 * eps)
            r = mpf(av[i - 1]) + t
            err = terr + (abs(mpf(av[i - 1])) + abs(r)) * 2 * eps
        return r, err


def cf_limit(a, b, n1=400, n2=500):
    """A deep value and how far it still moves."""
    av, bv = ab_values(a, b, n2)
    cv = convergents(av, bv)
    if cv[n1][1] == 0 or cv[n2][1] == 0:
        raise Bad('zero denominator')
    x, y = Fr(cv[n1][0], cv[n1][1]), Fr(cv[n2][0], cv[n2][1])
    return y, abs(x - y)


def list_exact(av, bv):
    r = Fr(av[-1])
    for i in range(len(av) - 1, 0, -1):
        if r == 0:
            raise Bad('vanishing tail')
        r = av[i - 1] + bv[i] / r
    return r


# ---------------------------------------------------------------------------------------------------- post-functions

def _inv(x):
    return mpf('inf') if x == 0 else 1 / x


def _sqrt(x):
    return mpf('nan') if x < 0 else mpmath.sqrt(x)


def _ln(x):
    return mpf('nan') if x <= 0 else mpmath.ln(x)


def _pow(n):
    return lambda x: x ** n


def _cot(x):
    return _inv(mpmath.tan(x))


# the documented order (positions are part of the format of stored tables)
_BASE = [lambda x: x, _pow(2), _pow(3), _pow(4), _pow(5), _sqrt, mpmath.sin, mpmath.cos, mpmath.tan, _cot, mpmath.exp, _ln]
POST_NAMES = ['x', 'x^2', 'x^3', 'x^4', 'x^5', 'sqrt', 'sin', 'cos', 'tan', 'cot', 'exp', 'ln']
POST_TEXT = ['lambda x: x', 'safe_inverse', 'lambda x: x**2', 'lambda x: safe_inverse(x**2)', 'lambda x: x**3',
             'lambda x: safe_inverse(x**3)', 'lambda x: x**4', 'lambda x: safe_inverse(x**4)', 'lambda x: x**5',
             'lambda x: safe_inverse(x**5)', 'safe_sqrt', 'lambda x: safe_inverse(safe_sqrt(x))',
             'lambda x: dec_sin(x)', 'lambda x: safe_inverse(dec_sin(x))', 'lambda x: dec_cos(x)',
             'lambda x: safe_inverse(dec_cos(x))', 'lambda x: dec_tan(x)', 'lambda x: safe_inverse(dec_tan(x))']
NPOST = 24


def _compose(f):
    return lambda x: _inv(f(x)) if not mpmath.isnan(f(x)) else mpf('nan')


POST = []
for _f in _BASE:
    POST.append(_f)
    POST.append(_compose(_f))


def post_value(k, v, err, dps=50):
    """(value, error bound) of post-function k at v known to +-err. Bad where it is undefined or ill-conditioned."""
    f = POST[k]
    eps = mpf(10) ** (1 - dps)
    with mpmath.workdps(dps + 60):
        v = mpf(v)
        d = err * 2 + abs(v) * eps
        ys = [f(v), f(v - d), f(v + d)]
        for y in ys:
            if mpmath.isnan(y) or mpmath.isinf(y):
                if all(mpmath.isnan(z) for z in ys) and d < abs(v) / 100:
                    return None, None      # certainly undefined
                raise Bad('undefined')
        bound = 4 * (abs(ys[1] - ys[0]) + abs(ys[2] - ys[0])) + abs(ys[0]) * eps * 8
        if bound > 1 and bound * 10 > abs(ys[0]):
            raise Bad('next to a pole')
        return ys[0], bound


# ---------------------------------------------------------------------------------------------------- digits

def key_of(v, err, prec, trunc, dps=50):
    """The digits under which |v| is stored (integer part dropped if trunc): prec decimals of 0.ddd, in general the
    first prec+2 characters of the fixed-point notation. Bad if the value is too close to a change of those digits."""
    with mpmath.workdps(dps + 60):
        v = abs(mpf(v))
        if v > mpf(10) ** (26 if trunc else 12) or v < mpf(10) ** -30:
            raise Bad('magnitude')
        size = max(v / 10 ** 12, 1)
        ip = int(mpmath.floor(v))
        if trunc:
            v = v - ip
            ip = 0
            if v < mpf(10) ** -25:
                raise Bad('almost an integer')
        s = str(ip)
        nd = prec + 2 - len(s) - 1
        if nd < 0 or (not trunc and nd < 1):
            raise Bad('integer part longer than the key')
        scaled = v * mpf(10) ** nd
        fl = int(mpmath.floor(scaled))
        slack = size * mpf(10) ** (nd - 42) + err * 4 * mpf(10) ** nd
        if scaled - fl < slack or fl + 1 - scaled < slack:
            raise Bad('at a boundary')
        fs = str(fl).rjust(nd + 1, '0') if nd else str(fl)
        return (fs[:-nd] + '.' + fs[-nd:]) if nd else fs + '.'


def same_digits(key, v, err, prec, trunc, dps=50):
    return key == key_of(v, err, prec, trunc, dps)


# ---------------------------------------------------------------------------------------------------- enumerations

def ranges_product(rng):
    """All coefficient choices of an interlace: tuples of tuples."""
    return itertools.product(*[itertools.product(*[range(lo, hi) for lo, hi in poly]) for poly in rng])


def indexed_poly(c):
    n = len(c) - 1
    out = [0] * len(c)
    for i, k in enumerate(c):
        for j in range(n + 1):
            # (x+i)^n = sum C(n,j) x^j i^(n-j)
            out[j] += k * math.comb(n, j) * (i ** (n - j))
    return tuple(out)


def sparse_polys(c, n):
    """All placements of the coefficients c, in order, on n powers."""
    for mask in itertools.combinations(range(n), len(c)):
        p = [0] * n
        for k, i in zip(c, mask):
            p[i] = k
        yield tuple(p)


def family(cls, coeffs, n=None):
    if cls == 'normal':
        yield tuple(tuple(p) for p in coeffs)
    elif cls == 'indexed':
        yield tuple(indexed_poly(p) for p in coeffs)
    else:
        for t in itertools.product(*[list(sparse_polys(p, n)) for p in coeffs]):
            yield t


def squeeze(ps):
    return (ps[0],) if all(p == ps[0] for p in ps) else ps


def root_skip(pb):
    """Is the pair skipped because of this b polynomial: True, False, or None where the documentation leaves it open."""
    c = strip_powers(pb)
    if not c:
        return True
    if len(c) == 1:
        return False
    roots = integer_roots(c)
    if not roots:
        return False
    if len(c) <= 3 and any(r > 0 for r in roots):
        return True
    return None


def pair_status(pa, pb, avoid_roots, exp_conv):
    """True: must be enumerated, False: must not, None: open. pa, pb squeezed."""
    status = True
    if avoid_roots:
        sk = [root_skip(p) for p in pb]
        if True in sk:
            return False
        if None in sk:
            status = None
    if exp_conv and len(pa) == 1 and len(pb) == 1 and degree(pb[0]) > 2 * degree(pa[0]):
        return False
    return status


def enum_pairs(cls, ra, rb, special=None, avoid_roots=True, exp_conv=False):
    """[(pa, pb, status)] with multiplicity."""
    na, nb = special if special else (None, None)
    A = [squeeze(x) for c in ranges_product(ra) for x in family(cls, c, na)]
    B = []
    for c in ranges_product(rb):
        for x in family(cls, c, nb):
            B.append((squeeze(x), x))
    out = []
    for pa in A:
        for pb, raw in B:
            out.append((pa, pb, pair_status(pa, pb, avoid_roots, exp_conv)))
    return out


# ---------------------------------------------------------------------------------------------------- left-hand sides

def lhs_value(kind, params, t):
    """Exact value of the LHS at the Fraction t, or None if undefined."""
    if kind == 'ulcd':
        u, l, c, d = params
        return (Fr(u) / t + t / l + c) / d
    p, q, n = params
    den = poly_at(q, t)
    if den == 0:
        return None
    return poly_at(p, t) / Fr(den) + n


def lhs_scale(kind, params, t):
    """A bound on the sizes of the terms that add up to the LHS (for rounding errors)."""
    at = abs(t)
    if kind == 'ulcd':
        u, l, c, d = params
        return (abs(Fr(u)) / at + at / abs(l) + abs(c)) / abs(Fr(d))
    p, q, n = params
    P = sum(abs(k) * at ** i for i, k in enumerate(p))
    Q = sum(abs(k) * at ** i for i, k in enumerate(q))
    den = abs(poly_at(q, t))
    num_ = abs(poly_at(p, t))
    if den == 0:
        return None
    return (P / den) + (num_ / den) * (Q / den) + abs(n)


def norm_range(r, symmetric=True):
    if isinstance(r, int):
        return list(range(-r, r + 1)) if symmetric else list(range(1, r + 1))
    if len(r) in (2, 3):
        return list(range(*r))
    return list(r)


def enum_ulcd(params):
    us, ls, cs = [norm_range(r) for r in params[:3]]
    ds = norm_range(params[3], symmetric=False)
    for u, l, c, d in itertools.product(us, ls, cs, ds):
        if l == 0 or d == 0 or abs(c) >= abs(d):
            continue
        yield (u, l, c, d)


def enum_rational(params, t):
    pr, qr, force = params
    for p in itertools.product(*[range(lo, hi) for lo, hi in pr]):
        for q in itertools.product(*[range(lo, hi) for lo, hi in qr]):
            if not any(p) or not any(q):
                continue
            if degree(p) < 1 and degree(q) < 1:
                continue
            if force and degree(p) < degree(q):
                continue
            if poly_at(p, t) == 0 or poly_at(q, t) == 0:
                continue
            yield (p, q, 0)


def enum_lhs(kind, params, t):
    return enum_ulcd(params) if kind == 'ulcd' else enum_rational(params, t)


# -- polynomials over Q, as lists of Fractions (lowest first), for canonical forms

def ptrim(p):
    p = [Fr(x) for x in p]
    while p and p[-1] == 0:
        p.pop()
    return p


def padd(p, q, s=1):
    n = max(len(p), len(q))
    return ptrim([(p[i] if i < len(p) else 0) + s * (q[i] if i < len(q) else 0) for i in range(n)])


def pmul(p, q):
    if not p or not q:
        return []
    out = [Fr(0)] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            out[i + j] += x * y
    return ptrim(out)


def pdivmod(p, q):
    p, q = ptrim(p), ptrim(q)
    quo = [Fr(0)] * max(0, len(p) - len(q) + 1)
    while len(p) >= len(q):
        k = p[-1] / q[-1]
        s = len(p) - len(q)
        quo[s] = k
        p = padd(p, [Fr(0)] * s + [k * x for x in q], -1)
    return ptrim(quo), p


def pgcd(p, q):
    p, q = ptrim(p), ptrim(q)
    while q:
        p, q = q, pdivmod(p, q)[1]
    return [x / p[-1] for x in p] if p else p


def is_constant_ratio(p, q):
    """Does p/q not depend on the variable?"""
    p, q = ptrim(p), ptrim(q)
    if not p:
        return True
    if len(p) != len(q):
        return False
    k = p[-1] / q[-1]
    return all(x == k * y for x, y in zip(p, q))


def degenerate(kind, params):
    """True/False; None where it isn't settled (u/x + x/l with u=-l=+-1 is treated as degenerate by the code)."""
    if kind == 'ulcd':
        u, l, c, d = params
        return None if abs(u) == 1 and u == -l else False
    return is_constant_ratio(params[0], params[1])


def whole(params):
    """(P, Q) with LHS = P/Q for a rational left-hand side, the added integer included."""
    p, q, n = params
    return padd(ptrim(p), [n * x for x in ptrim(q)]), ptrim(q)


def differ_by_integer(P1, Q1, P2, Q2):
    """P1/Q1 - P2/Q2 is an integer."""
    d = padd(pmul(P1, Q2), pmul(P2, Q1), -1)
    den = pmul(Q1, Q2)
    if not d:
        return True
    quo, rem = pdivmod(d, den)
    return not rem and len(quo) == 1 and quo[0].denominator == 1


def same_function(P1, Q1, P2, Q2, s=1):
    return not padd(pmul(P1, Q2), pmul(P2, Q1), -s)


# ---------------------------------------------------------------------------------------------------- results

def tuplify(x):
    return tuple(tuplify(i) for i in x) if isinstance(x, (list, tuple)) else x


# ---------------------------------------------------------------------------------------------------- the search

def certainly_undefined(a, b, depth):
    """The backward recurrence divides by zero (or ends at zero), and it stays within integers, so that floating
    arithmetic makes no difference."""
    av, bv = ab_values(a, b, depth - 1)
    r = av[-1]
    for i in range(len(av) - 1, 0, -1):
        if r == 0:
            return True
        if bv[i] % r:
            return False
        r = av[i - 1] + bv[i] // r
    return r == 0


def entry_key(ab, pf, depth, prec, trunc, dps=50):
    """('key', digits) under which a post-processed continued fraction is stored, ('never',) or ('open',)."""
    if certainly_undefined(ab[0], ab[1], depth):
        return ('never',)
    try:
        v, err = cf_value(ab[0], ab[1], depth, dps)
        if abs(v) < err * 1000:
            return ('open',)
        y, yerr = post_value(pf, v, err, dps)
        if y is None:
            return ('never',)
        return ('key', key_of(y, yerr, prec, trunc, dps))
    except Bad:
        return ('open',)


def table_entries(o, builds):
    """{(ab, pf): (status, key)} for all that may be stored; status None where the enumeration is open."""
    out = {}
    exp_conv = o.get('exp_conv', True)
    for ra, rb in builds:
        for pa, pb, status in enum_pairs(o.get('cls', 'normal'), ra, rb, o.get('special'), True, exp_conv):
            if status is False:
                continue
            for pf in o['pfs']:
                e = ((pa, pb), pf)
                if e in out:
                    if status and not out[e][0]:
                        out[e] = (True, out[e][1])
                    continue
                out[e] = (status, entry_key((pa, pb), pf, o['iters'], o['hp'], o.get('trunc', True), o.get('prec', 50)))
    return out


def lhs_key(kind, params, t, prec, trunc, dps=50):
    v = lhs_value(kind, params, t)
    err = lhs_scale(kind, params, t) * Fr(10) ** (3 - dps)
    return key_of(mp_of(v), mp_of(err), prec, trunc, dps)


def canon_lhs(kind, params):
    """The function a left-hand side stands for: parameters for ulcd, the reduced fraction (monic denominator) else."""
    if kind == 'ulcd':
        return tuplify(params)
    P, Q = whole(params)
    g = pgcd(P, Q) if P else Q
    P, Q = pdivmod(P, g)[0], pdivmod(Q, g)[0]
    return tuple(x / Q[-1] for x in P), tuple(x / Q[-1] for x in Q)
