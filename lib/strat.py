"""Shared generators. Cases are plain JSON values."""
import hashlib

from hypothesis import strategies as st

ints = st.integers


@st.composite
def rng(draw, lo=-5, hi=5, widths=(1, 1, 2, 2, 3)):
    w = draw(st.sampled_from(widths))
    a = draw(ints(lo, max(lo, hi - w + 1)))
    return [a, a + w]


@st.composite
def poly_ranges(draw, minlen=1, maxlen=3, lo=-5, hi=5, widths=(1, 1, 2, 2, 3)):
    n = draw(ints(minlen, maxlen))
    return [draw(rng(lo, hi, widths)) for _ in range(n)]


def size(ranges):
    s = 1
    for p in ranges:
        for r in p:
            s *= r[1] - r[0]
    return s


def shrink_to(ranges, limit):
    """Narrows the widest ranges until the product is within the limit."""
    ranges = [[list(r) for r in p] for p in ranges]
    while size(ranges) > limit:
        r = max((r for p in ranges for r in p), key=lambda r: r[1] - r[0])
        r[1] -= 1
    return ranges


@st.composite
def interlace(draw, maxpolys=4, minlen=1, maxlen=3, lo=-5, hi=5, widths=(1, 1, 2, 2, 3), limit=30, equal_len=False):
    k = draw(st.sampled_from([1, 1, 1, 1, 2, 2, 2, 3, 4]))
    k = min(k, maxpolys)
    if k > 1 and draw(st.booleans()):
        # the same ranges for all, so that identical polynomials meet
        p = draw(poly_ranges(minlen, maxlen, lo, hi, widths))
        out = [[list(r) for r in p] for _ in range(k)]
    else:
        n = draw(ints(minlen, maxlen))
        out = [draw(poly_ranges(n if equal_len else minlen, n if equal_len else maxlen, lo, hi, widths))
               for _ in range(k)]
    return shrink_to(out, limit)


@st.composite
def rooted_poly_ranges(draw, lo=-6, hi=6):
    """Ranges of width 1-2 around a polynomial with chosen roots, shifted by powers of x."""
    deg = draw(ints(1, 3))
    p = [draw(st.sampled_from([1, -1, 2, -2, 3]))]
    for _ in range(deg):
        r = draw(st.sampled_from([*range(-4, 5), *range(-4, 5), -11, 7, 12, 60]))
        m = draw(st.sampled_from([1, 1, 1, 2, 3]))
        # times (m x - r)
        q = [0] * (len(p) + 1)
        for i, c in enumerate(p):
            q[i] -= r * c
            q[i + 1] += m * c
        p = q
    p = [0] * draw(st.sampled_from([0, 0, 1, 2])) + p + [0] * draw(st.sampled_from([0, 0, 1]))
    out = []
    for c in p:
        w = draw(st.sampled_from([1, 1, 1, 2]))
        out.append([c - draw(ints(0, w - 1)), 0])
        out[-1][1] = out[-1][0] + w
    return out


@st.composite
def large_poly_ranges(draw):
    """Ranges of width 1-2 around a linear or quadratic polynomial with large coefficients, with integer roots or nearly."""
    big = draw(st.sampled_from([10 ** 4, 10 ** 6, 10 ** 9, 10 ** 12, 2 ** 53, 10 ** 17])) + draw(ints(-3, 3))
    m, s = draw(st.sampled_from([1, 1, 2, 3])), draw(st.sampled_from([1, -1]))
    how = draw(ints(0, 3))
    if how == 0:
        p = [-m * big * s, m]
    elif how == 1:
        r = draw(ints(-4, 4))
        p = [m * r * big, -m * s * big - r, s]
    elif how == 2:
        p = [big * big, -2 * s * big, 1]
    else:
        p = [draw(ints(-3, 3)), s * m * big, draw(st.sampled_from([1, -1, 2]))]
    out = []
    for c in p:
        lo = c - draw(st.sampled_from([0, 0, 0, 1]))
        out.append([lo, c + 1])
    return out


@st.composite
def coeffs(draw, maxlen=4, lo=-9, hi=9, minlen=1):
    return draw(st.lists(ints(lo, hi), min_size=minlen, max_size=maxlen))


@st.composite
def cf_polys(draw, maxpolys=5, maxlen=3, lo=-9, hi=9):
    """An interlace of polynomials as lists of coefficients."""
    k = min(draw(st.sampled_from([1, 1, 1, 2, 2, 3, 3, 4, 5])), maxpolys)
    return [draw(coeffs(maxlen, lo, hi)) for _ in range(k)]


def fraction_digits(seed, digits=60):
    """Digits of a generic number: never (nearly) those of a short decimal, as drawn integers like to be."""
    return str(int(hashlib.sha512(b'%d' % seed).hexdigest(), 16) % (9 * 10 ** (digits - 1)) + 10 ** (digits - 1))


def fractions(digits=60):
    return ints(0, 2 ** 32).map(lambda n: fraction_digits(n, digits))


def decimal_strings(lo=0, hi=10, digits=60):
    """Irrational-looking positive decimals."""
    return st.tuples(ints(lo, hi), fractions(digits)).map(lambda t: '%d.%s' % t)


@st.composite
def targets(draw):
    """Constants to be sought: mostly generic, sometimes small or large or negative-free rationals."""
    kind = draw(st.sampled_from(['unit', 'generic', 'generic', 'generic', 'big', 'small']))
    frac = draw(fractions())
    if kind == 'unit':
        return '0.%s' % frac
    if kind == 'generic':
        return '%d.%s' % (draw(ints(1, 4)), frac)
    if kind == 'big':
        return '%d.%s' % (draw(ints(5, 2000)), frac)
    return '0.0%s' % frac
