from collections import Counter
from fractions import Fraction as Fr

from hypothesis import strategies as st

import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C13'
RULE = ('random ranges for the parameters of both kinds of left-hand side (bounds, start/stop, start/stop/step, lists), '
        'random constants; non-trivial: at least 2 left-hand sides are enumerated and at least one combination is skipped')


@st.composite
def int_range(draw, first=True):
    """A range of u, l, c (or d) in any of the accepted notations."""
    kind = draw(st.sampled_from(['bound', 'range', 'range', 'step', 'list']))
    if kind == 'bound':
        return draw(st.integers(0 if first else 1, 3 if first else 5))
    if kind == 'list':
        n = draw(st.sampled_from([1, 4, 5]))
        # (a number that is listed twice is an option twice)
        return draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n, unique=draw(st.integers(0, 3)) > 0))
    lo = draw(st.integers(-6, 5))
    if kind == 'range':
        return [lo, lo + draw(st.integers(0, 5))]
    step = draw(st.sampled_from([1, 2, 3, -1, -2]))
    n = draw(st.integers(0, 4))
    return [lo, lo + n * step + draw(st.integers(0, abs(step) - 1)) * (1 if step > 0 else -1), step]


@st.composite
def ulcd_params(draw):
    return [draw(int_range()), draw(int_range()), draw(int_range()), draw(int_range(first=False))]


@st.composite
def rational_params(draw, maxlen=3, limit=40):
    if limit == 40 and draw(st.integers(0, 7)) == 0:
        maxlen = 6
    p = S.shrink_to([draw(S.poly_ranges(1, maxlen, -4, 4))], limit)[0]
    q = S.shrink_to([draw(S.poly_ranges(1, maxlen, -4, 4))], limit)[0]
    if draw(st.integers(0, 11)) == 0:
        # large coefficients
        k = draw(st.integers(1, 10 ** draw(st.sampled_from([3, 9, 17, 24]))))
        p = [[lo + k, hi + k] for lo, hi in p]
        if draw(st.booleans()):
            q = [[lo - k, hi - k] for lo, hi in q]
    return [p, q, draw(st.booleans())]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['ulcd', 'rationalfunc']))
    t = draw(S.targets())
    if kind == 'ulcd':
        return {'kind': kind, 'params': draw(ulcd_params()), 'target': t, 'tuples': draw(st.sampled_from([False, True, 'range']))}
    if draw(st.integers(0, 3)) == 0:
        # a constant at which some numerators and denominators vanish
        t = draw(st.sampled_from(['1', '2', '3', '0.5']))
    return {'kind': kind, 'params': draw(rational_params()), 'target': t}


def combinations(c):
    n = 1
    if c['kind'] == 'ulcd':
        for i, r in enumerate(c['params']):
            n *= len(O.norm_range(r, symmetric=i < 3))
    else:
        for p in c['params'][:2]:
            for lo, hi in p:
                n *= hi - lo
    return n


def check(c, env):
    t = Fr(c['target'])
    kind = c['kind']
    want = Counter(O.tuplify(x) for x in O.enum_lhs(kind, c['params'], t))
    r = env.ok('enum_lhs', kind=kind, params=c['params'], target=c['target'], tuples=c.get('tuples', False))
    got = Counter(O.tuplify(p) for p, _ in r['items'])
    for k, n in want.items():
        if got.get(k, 0) != n:
            raise Violation('%s %r was enumerated %d times instead of %d' % (kind, k, got.get(k, 0), n))
    for k in got:
        if k not in want:
            raise Violation('%s %r was enumerated, which is outside the ranges or one of the skipped' % (kind, k))
    if not r['type_ok']:
        raise Violation('an enumerated left-hand side is no %s' % kind)
    for p, v in r['items']:
        w = O.lhs_value(kind, p, t)
        v = O.num(v)
        if not O.is_num(v) or abs(v - w) > O.lhs_scale(kind, p, t) / Fr(10 ** 46):
            raise Violation('%s %r at %s came with the value %s instead of %s'
                            % (kind, p, c['target'], v if not O.is_num(v) else O.mp_of(v), O.mp_of(w)))
    skipped = combinations(c) - len(r['items'])
    env.label(kind, 'with skips' if skipped else 'no skips')
    env.nontrivial(len(got) >= 2 and skipped)


PARTS = [Part('lhs', case(), check, 2000)]
