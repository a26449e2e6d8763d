from collections import Counter
from fractions import Fraction as Fr

import mpmath
from hypothesis import strategies as st

import oracle as O
import strat as S
import c11
import mitmcase as M
from pbt import Part, Violation

PROPERTY = 'C01'
RULE = ('random ranges of continued fractions (all families, interlacings, post-functions) and of left-hand sides '
        '(both families), sought at few digits, where chance matches abound, or with a planted identity at many; '
        'compared with all combinations. Non-trivial: at least one combination has to be reported and at least one not')
ASSUMPTIONS = ['combinations whose digits are within rounding errors of a change, or whose value is ill-conditioned, are not judged',
               'u/x+x/l with u=-l=+-1 may be treated as degenerate']


@st.composite
def chance(draw):
    o = draw(M.settings(hp=(1, 1, 2, 2, 3, 4)))
    builds = [list(draw(M.ranges(o, 4, 8)))]
    if draw(st.integers(0, 3)) == 0:
        builds.append(list(draw(M.ranges(o, 4, 4))))
    return {'o': o, 'builds': builds, 'lhs': draw(M.lhs(20))}


def check(c, env):
    o, (kind, lp) = c['o'], c['lhs']
    t = Fr(o['target']['value'])
    hp, trunc, dps = o['hp'], o.get('trunc', True), o.get('prec', 50)
    steps = [['new', o]] + [['build', ra, rb] for ra, rb in c['builds']] + [['find', kind, lp], ['get']]
    if c.get('twice'):
        # a second search on the same table finds the same
        steps += [['find', kind, lp], ['get']]
    res = env.ok('mitm', steps=steps)
    out = res[-1]
    if c.get('twice') and sorted(map(repr, out)) != sorted(map(repr, res[-3])):
        raise Violation('a second search reports other results')
    got = Counter()
    for r in out:
        if r['lhs']['type'] != kind:
            raise Violation('a left-hand side is a %r' % r['lhs']['type'])
        p = O.tuplify(r['lhs']['params'])
        got[(O.tuplify(r['ab']), r['pf'], O.canon_lhs(kind, p))] += 1
        want = O.lhs_value(kind, p, t)
        if want is None or not O.is_num(O.num(r['lhs']['val'])) or \
                abs(O.num(r['lhs']['val']) - want) > O.lhs_scale(kind, p, t) * Fr(10) ** (4 - dps):
            raise Violation('the reported left-hand side %r is valued %s' % (p, O.mp_of(O.num(r['lhs']['val']))))
    lhss = Counter(O.tuplify(p) for p in O.enum_lhs(kind, lp, t))
    entries = O.table_entries(o, c['builds'])
    by_key = {}
    open_entries = set()
    for e, (status, key) in entries.items():
        if key[0] == 'key':
            by_key.setdefault(key[1], []).append((e, status))
        elif key[0] == 'open':
            open_entries.add(e)
    must = Counter()
    example = {}
    may = Counter()
    for p, n in lhss.items():
        deg = O.degenerate(kind, p)
        if deg:
            continue
        f = O.canon_lhs(kind, p)
        example[f] = p
        try:
            k = O.lhs_key(kind, p, t, hp, trunc, dps)
        except O.Bad:
            # may match anything
            for e in entries:
                if entries[e][1][0] != 'never':
                    may[(*e, f)] += n
            continue
        for e, status in by_key.get(k, ()):
            if status and deg is False:
                must[(*e, f)] += n
            may[(*e, f)] += n
        for e in open_entries:
            may[(*e, f)] += n
    for m, n in must.items():
        if got[m] < n:
            raise Violation('%r agree%s, but this is reported %d times instead of %d: %r'
                            % (m, show(m, o, kind, t, example), got[m], n, c))
    for g, n in got.items():
        if n > may[g]:
            raise Violation('%r is reported %d times instead of %d%s: %r' % (g, n, may[g], show(g, o, kind, t, example), c))
    env.label(kind, o['cls'], 'hp %d' % hp, *['pf %d' % m[1] for m in must])
    if any(len(m[0][0]) > 1 or len(m[0][1]) > 1 for m in must):
        env.label('interlaced match')
    env.nontrivial(must and len(may) < len(entries) * len(lhss))


def show(m, o, kind, t, example):
    try:
        v, err = O.cf_value(m[0][0], m[0][1], o['iters'])
        return ' (%s and %s)' % (mpmath.nstr(O.post_value(m[1], v, err)[0], 25),
                                 mpmath.nstr(O.mp_of(O.lhs_value(kind, example[m[2]], t)), 25))
    except Exception:
        return ''


def solve(kind, params, y):
    """A constant at which the left-hand side is worth y, or None."""
    if kind == 'ulcd':
        u, l, c, d = params
        # u/t + t/l = d y - c = s  ->  t^2 - l s t + u l = 0
        s = l * (d * y - c)
        disc = s * s - 4 * u * l
        if disc < 0:
            return None
        return (s + mpmath.sqrt(disc)) / 2
    p, q, n = params
    # linear p, q:  p0 + p1 t = (y-n)(q0 + q1 t)
    w = y - n
    p, q = list(p) + [0], list(q) + [0]
    den = p[1] - w * q[1]
    if abs(den) < mpmath.mpf(10) ** -20:
        return None
    return (w * q[0] - p[0]) / den


@st.composite
def planted(draw):
    o = draw(M.settings(hp=(6, 9, 12, 15, 20, 25), iters=(12, 20, 33, 12, 20, 33, 150, 400)))
    if draw(st.integers(0, 4)) == 0:
        o['prec'] = draw(st.sampled_from([30, 80, 120]))
        o['hp'] = draw(st.sampled_from([5, 10, o['prec'] - 25, o['prec'] - 20]))
    o['trunc'] = draw(st.sampled_from([True, True, True, False]))
    ra, rb = draw(M.ranges(o, 4, 8))
    if draw(st.integers(0, 5)) == 0:
        # a value next to an integer: many zeros or nines behind the point
        o['cls'] = 'normal'
        k = draw(st.sampled_from([1, -1])) * draw(st.integers(1, 9)) * 10 ** draw(st.integers(2, 12))
        n = draw(st.integers(1, 3))
        ra, rb = [[[n, n + 1]], [[k, k + draw(st.integers(1, 2))]]], [[[1, draw(st.integers(2, 3))]]]
        if draw(st.booleans()):
            ra[0], ra[1] = ra[1], ra[0]
        o['pfs'] = [0] + [x for x in o['pfs'] if x]
    kind = draw(st.sampled_from(['ulcd', 'rationalfunc', 'rationalfunc']))
    nz = st.integers(-6, 6).filter(bool)
    if kind == 'ulcd':
        d = draw(st.integers(1, 5))
        params = [draw(st.integers(-5, 5)), draw(nz), draw(st.integers(-d + 1, d - 1)), d]
    else:
        params = [[draw(st.integers(-5, 5)), draw(nz)], [draw(nz), draw(st.sampled_from([0, 0, 1, -2]))], 0]
    return {'o': o, 'build': [list(ra), list(rb)], 'kind': kind, 'params': params,
            'pick': draw(st.integers(0, 10 ** 6)), 'pf': draw(st.integers(0, 3)), 'sign': draw(st.sampled_from([1, -1])),
            'int': draw(st.sampled_from([0, 0, 1, -1, 3])), 'width': draw(st.lists(st.integers(0, 2), min_size=8, max_size=8))}


def planted_check(c, env):
    o = dict(c['o'])
    o['target'] = {'value': '1.5'}
    prec = o.get('prec', 50)
    ra, rb = c['build']
    pairs = [(pa, pb) for pa, pb, s in O.enum_pairs(o['cls'], ra, rb, o.get('special'), True, o.get('exp_conv', True)) if s]
    if not pairs:
        return
    pair = pairs[c['pick'] % len(pairs)]
    pf = o['pfs'][c['pf'] % len(o['pfs'])]
    try:
        if O.certainly_undefined(pair[0], pair[1], o['iters']):
            return
        v, err = O.cf_value(pair[0], pair[1], o['iters'], prec)
        y, _ = O.post_value(pf, v, err, prec)
    except O.Bad:
        return
    if y is None:
        return
    with mpmath.workdps(prec + 60):
        t = solve(c['kind'], c['params'], c['sign'] * y + (c['int'] if o['trunc'] and c['sign'] * y > 0 else 0))
    if t is None or not mpmath.mpf(10) ** -6 < abs(t) < 10 ** 8:
        return
    o['target'] = {'value': mpmath.nstr(t, prec + 20, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)}
    w = c['width']
    if c['kind'] == 'ulcd':
        u, l, cc, d = c['params']
        lp = [[u - w[0] % 2, u + 1], [l, l + 1 + w[1]], [cc, cc + 1 + w[2] % 2], [d, d + 1 + w[3]]]
    else:
        p, q, _ = c['params']
        lp = [[[x, x + 1 + w[i] % 2] for i, x in enumerate(p)], [[x - w[2 + i] % 2, x + 1] for i, x in enumerate(q)], False]
    check({'o': o, 'builds': [c['build']], 'lhs': [c['kind'], lp], 'twice': True}, env)


HUGE = {'o': {'target': {'value': '1.2345'}, 'pfs': [20, 21], 'hp': 4, 'iters': 5, 'cls': 'normal'},
        'builds': [[[[[10 ** 30, 10 ** 30 + 1]]], [[[1, 2]]]], [[[[-10 ** 30, 1 - 10 ** 30]]], [[[1, 2]]]]],
        'lhs': ['ulcd', [1, 1, 1, 2]]}
PARTS = [Part('chance', chance(), check, 1400, examples=[HUGE, dict(HUGE, o=dict(HUGE['o'], trunc=False))]), Part('planted', planted(), planted_check, 700)]
