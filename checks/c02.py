from fractions import Fraction as Fr

import mpmath
from hypothesis import strategies as st
from mpmath import mpf

import c11
import mitmcase as M
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C02'
RULE = ('random lists of clicks whose two sides are made to agree in a random number of digits (none to all), up to sign '
        'and an integer, refined to random accuracies; and the clicks of random searches. Non-trivial: the list has both '
        'clicks that have to be kept and clicks that have to be dropped, and one of the kept needs its sign or integer '
        'part completed')
ASSUMPTIONS = ['clicks whose deciding digits are within rounding errors of a change, or whose value is ill-conditioned, '
               'are not judged']


@st.composite
def polys(draw, maxlen=3):
    return [[draw(st.sampled_from([1, -1, 2, 3, 4, -5]))] + draw(st.lists(st.integers(-4, 6), max_size=maxlen - 1))
            for _ in range(draw(st.sampled_from([1, 1, 2])))]


@st.composite
def click(draw):
    kind = draw(st.sampled_from(['ulcd', 'rationalfunc', 'rationalfunc']))
    nz = st.integers(-6, 6).filter(bool)
    c = {'ab': [draw(polys()), draw(polys())], 'pf': draw(st.sampled_from([0, 0, 0, 1]) | st.integers(0, 23)), 'kind': kind,
         'digits': draw(st.integers(0, 8) | st.integers(0, 40)), 'sign': draw(st.sampled_from([1, -1])),
         'int': draw(st.sampled_from([0, 0, 1, -1, 2, -3, 17])), 'off': draw(st.integers(-3, 3))}
    if draw(st.integers(0, 9)) == 0:
        c['int'] = draw(st.sampled_from([1, -1])) * draw(st.integers(10 ** 5, 10 ** 24))
    if draw(st.integers(0, 7)) == 0:
        # next to an integer, or to a half
        k = draw(st.sampled_from([1, -1])) * draw(st.integers(1, 9)) * 10 ** draw(st.integers(2, 12))
        n = draw(st.integers(1, 3))
        c['ab'] = [draw(st.sampled_from([[[n], [k]], [[n], [2], [k]], [[k], [n]]])), [[1]]]
        c['pf'] = draw(st.sampled_from([0, 0, 0, 1, 4]))
    if kind == 'ulcd':
        c['k'] = [draw(st.integers(-4, 4)), draw(nz)]
    else:
        c['k'] = [draw(st.lists(st.integers(-4, 4), min_size=1, max_size=2)), draw(st.booleans()),
                  draw(st.sampled_from([0, 0, 1, -2]))]
    return c


@st.composite
def case(draw):
    return {'target': draw(S.targets()), 'clicks': draw(st.lists(click(), min_size=1, max_size=6)),
            'trunc': draw(st.sampled_from([True, True, True, False])),
            'acc': draw(st.integers(1, 10) | st.integers(1, 35)), 'iters': draw(st.sampled_from([5, 12, 20, 41, 80])),
            'more': draw(st.integers(0, 6)), 'how': draw(st.sampled_from(['const', 'const', 'conv'])),
            'print': draw(st.integers(0, 5)) == 0, 'before': draw(st.sampled_from([None, 2, 3, 4, 6, 9, 15, 30, 60]))}


@st.composite
def long_case(draw):
    c = draw(case())
    n, s = draw(st.integers(20, 120)), draw(st.integers(1, 9))
    x = c['clicks'] + draw(st.lists(click(), min_size=1, max_size=4))
    return dict(c, clicks=[x[(i * i + s * i) % len(x)] for i in range(n)], iters=min(c['iters'], 20))


def side(c, iters, how):
    """(value, error) of the post-processed continued fraction; None if it can't be judged, 'never' if undefined."""
    a, b = c['ab']
    try:
        depth = iters if how == 'const' else iters + 1
        if how == 'const' and O.certainly_undefined(a, b, depth):
            return 'never'
        v, err = O.cf_value(a, b, depth)
        if abs(v) < 1000 * err:
            return None
        y, e = O.post_value(c['pf'], v, err)
    except O.Bad:
        return None
    return 'never' if y is None else (y, e)


def make_lhs(c, y, t, trunc):
    """A left-hand side that is y up to about the given digits."""
    with mpmath.workdps(150):
        # with an integer part of its own, where that is dropped
        n = abs(c['int']) if trunc and abs(y) < 10 ** 6 else 0
        w = c['sign'] * (abs(y) + n)
        D = 10 ** c['digits']
        if c['kind'] == 'ulcd':
            u, l = c['k']
            c0 = int(mpmath.nint(w * D - u / O.mp_of(t) - O.mp_of(t) / l)) + c['off']
            return ['ulcd', [u, l, c0, D]]
        ks, neg, m = c['k']
        if not any(ks):
            ks = [1]
        p = [0] + list(ks)
        c0 = int(mpmath.nint((w - m) * D - O.mp_of(O.poly_at(p, t)))) + c['off']
        p[0] = c0
        q = [D]
        if neg:
            p, q = [-x for x in p], [-D]
        return ['rationalfunc', [p, q, m]]


def usable(lhs, t):
    kind, params = lhs
    if kind == 'ulcd':
        return True
    p, q, n = params
    if any(p) and all(x == 0 for x in p[1:]):
        return False
    scale = sum(abs(k) * abs(t) ** i for i, k in enumerate(p))
    return scale and abs(O.poly_at(p, t)) > scale / 10 ** 8 and abs(O.lhs_value(kind, params, t)) * 10 ** 8 > 1


def verdict(lhs, y, t, acc, trunc):
    """True: has to be kept, False: has to be dropped, None: not judged."""
    if y is None:
        return None
    if y == 'never':
        return False
    try:
        k1 = O.key_of(y[0], y[1], acc, trunc)
        k2 = O.lhs_key(lhs[0], lhs[1], t, acc, trunc)
    except O.Bad:
        return None
    return k1 == k2


def same_up_to_int(kind, p1, p2):
    if kind == 'ulcd':
        P1, Q1 = [p1[0] * p1[1], p1[2] * p1[1], 1], [0, p1[1] * p1[3]]
        P2, Q2 = [p2[0] * p2[1], p2[2] * p2[1], 1], [0, p2[1] * p2[3]]
    else:
        P1, Q1 = O.whole(p1)
        P2, Q2 = O.whole(p2)
    return O.differ_by_integer(P1, Q1, P2, Q2) or O.differ_by_integer(P1, Q1, [-x for x in P2], Q2)


def check_refined(clicks, ys, out, t, acc, trunc, what, env=None):
    """clicks: [{'ab','pf','lhs'}] that were refined to out. Returns the positions of the kept ones."""
    kept = []
    i = 0
    for r in out:
        key = r['conv'][1][0]
        if not isinstance(key, int) or not 0 <= key < len(clicks) or key in kept:
            raise Violation('a kept click has the convergence information %r, which no one has: %s' % (r['conv'], what))
        if kept and key < kept[-1]:
            raise Violation('the kept clicks are out of order: %s' % what)
        kept.append(key)
        c = clicks[key]
        if r['ab'] != c['ab'] or r['pf'] != c['pf'] or r['lhs']['type'] != c['lhs'][0]:
            raise Violation('a kept click changed from %r to %r' % (c, r))
    completed = 0
    for i, c in enumerate(clicks):
        v = verdict(c['lhs'], ys[i], t, acc, trunc)
        if v is None:
            continue
        if v and i not in kept:
            raise Violation('click %d of value %s agrees with its left-hand side %s to %d digits, but is dropped: %s'
                            % (i, mpmath.nstr(ys[i][0], 50), L(c, t), acc, what))
        if not v and i in kept:
            raise Violation('click %d of value %s doesn\'t agree with its left-hand side %s to %d digits, but is kept: %s'
                            % (i, ys[i] if ys[i] == 'never' else mpmath.nstr(ys[i][0], 50), L(c, t), acc, what))
        if i not in kept:
            continue
        r = out[kept.index(i)]['lhs']
        y, err = ys[i]
        exact = O.lhs_value(c['lhs'][0], r['params'], t)
        tol = mpf(10) ** -acc + err if trunc else abs(y) * mpf(10) ** -acc * 10 + err + mpf(10) ** -acc
        sc = O.mp_of(O.lhs_scale(c['lhs'][0], r['params'], t)) * mpf(10) ** -44
        if exact is None or abs(O.mp_of(exact) - y) > tol + sc:
            raise Violation('click %d of value %s is completed to a left-hand side %r worth %s: %s'
                            % (i, mpmath.nstr(y, 50), r['params'], exact if exact is None else
                               mpmath.nstr(O.mp_of(exact), 50), what))
        val = O.num(r['val'])
        if not O.is_num(val) or abs(O.mp_of(val) - O.mp_of(exact)) > sc + abs(y) * mpf(10) ** -44:
            raise Violation('click %d: the completed left-hand side %r is worth %s, but valued %s: %s'
                            % (i, r['params'], mpmath.nstr(O.mp_of(exact), 50),
                               val if not O.is_num(val) else mpmath.nstr(O.mp_of(val), 50), what))
        if not same_up_to_int(c['lhs'][0], c['lhs'][1], r['params']):
            raise Violation('click %d: the left-hand side %r became %r: %s' % (i, c['lhs'], r['params'], what))
        if abs(O.lhs_value(c['lhs'][0], c['lhs'][1], t) - exact) > Fr(1, 2):
            completed += 1
    return kept, completed


def L(c, t):
    return mpmath.nstr(O.mp_of(O.lhs_value(c['lhs'][0], c['lhs'][1], t)), 50)


def check(c, env):
    t = Fr(c['target'])
    how, iters = c['how'], c['iters']
    clicks, ys, sides = [], [], {}
    ys0, sides0 = [], {}
    for x in c['clicks']:
        if how == 'conv' and any(O.integer_roots(p) or not any(p) for p in x['ab'][1]):
            # a vanishing numerator, which is an error there
            continue
        key = repr((x['ab'], x['pf']))
        if key not in sides:
            sides[key] = side(x, iters, how)
        y = sides[key]
        w = mpf('1.25') if y in (None, 'never') else y[0]
        if abs(w) > mpf(10) ** 12 or abs(w) < mpf(10) ** -12:
            continue
        lhs = make_lhs(x, w, t, c['trunc'])
        if usable(lhs, t):
            clicks.append({'ab': x['ab'], 'pf': x['pf'], 'lhs': lhs, 'conv': None})
            ys.append(y)
            if c['before']:
                if key not in sides0:
                    sides0[key] = side(x, c['before'], 'const')
                ys0.append(sides0[key])
    for i, x in enumerate(clicks):
        # unknown kinds of convergence are not made use of, so this marks the clicks
        x['conv'] = ['other', [i, 1]]
    o = {'target': {'value': c['target']}, 'pfs': [0], 'hp': 5, 'iters': 5, 'trunc': c['trunc']}
    ref = 'refine' if how == 'const' else 'refine_conv'
    acc, more = c['acc'], c['acc'] + c['more']
    # now and then refined by other iterations before, of which nothing may be left
    pre = [['set', clicks], ['refine', acc, c['before']], ['get']] if c['before'] else []
    out = env.ok('mitm', steps=[['new', o]] + pre + [['set', clicks], [ref, acc, iters, c['print']], ['get'], [ref, acc, iters], ['get'],
                                [ref, more, iters], ['get'], ['set', clicks], [ref, more, iters], ['get']])
    what = repr(c)
    if pre:
        check_refined(clicks, ys0, out[3], t, acc, c['trunc'], 'by %d iterations: %s' % (c['before'], what))
        out = [out[0]] + out[4:]
    kept, completed = check_refined(clicks, ys, out[3], t, acc, c['trunc'], what)
    again = [r['conv'][1][0] for r in out[5]]
    for i, k in enumerate(kept):
        if verdict(clicks[k]['lhs'], ys[k], t, acc, c['trunc']) and settled(out[3][i], ys[k], t, acc, c['trunc']):
            if k not in again:
                raise Violation('click %d is dropped by refining once more: %s' % (k, what))
            r1, r2 = out[3][i]['lhs']['params'], out[5][again.index(k)]['lhs']['params']
            if r1 != r2:
                raise Violation('click %d changes from %r to %r by refining once more: %s' % (k, r1, r2, what))
    if any(k not in kept for k in again):
        raise Violation('refining once more adds clicks: %s' % what)
    then = [dict(clicks[k], lhs=[clicks[k]['lhs'][0], r['lhs']['params']], conv=r['conv'])
            for k, r in zip(again, out[5])]
    for j, k in enumerate(again):
        then[j]['k'] = k
    # from the refined ones to a higher accuracy, and directly
    later = [r['conv'][1][0] for r in out[7]]
    if any(k not in again for k in later):
        raise Violation('a higher accuracy adds clicks: %s' % what)
    check_refined(clicks, ys, out[10], t, more, c['trunc'], what)
    for j, k in enumerate(again):
        v = verdict(then[j]['lhs'], ys[k], t, more, c['trunc'])
        if v is not None and v != (k in later):
            raise Violation('click %d is %s by refining the refined to %d digits: %s'
                            % (k, 'dropped' if v else 'kept', more, what))
    env.label(how, 'trunc' if c['trunc'] else 'whole', *['pf %d' % clicks[k]['pf'] for k in kept])
    dropped = [i for i in range(len(clicks)) if i not in kept]
    env.nontrivial(kept and dropped and completed)


def settled(r, y, t, acc, trunc):
    """Do the completed left-hand side and the continued fraction agree digit by digit, with all certainty?"""
    return verdict([r['lhs']['type'], r['lhs']['params']], y, t, acc, trunc) is True


def session_check(s, env):
    """Refining the clicks of a search."""
    o = s['steps'][0][1]
    t = Fr(o['target']['value'])
    trunc = o.get('trunc', True)
    find = [x for x in s['steps'] if x[0] == 'find'][0]
    builds = [x for x in s['steps'] if x[0] == 'build']
    steps = [['new', o]] + builds + [find, ['get'], ['refine', s['acc'], s['iters']], ['get'],
                                     ['rebuild', s['iters'] - 1]]
    out = env.ok('mitm', steps=steps)
    clicks, after, rebuilt = out[-4], out[-2], out[-1]
    ys = {}
    left = []
    for r in clicks:
        key = repr((r['ab'], r['pf']))
        if key not in ys:
            ys[key] = side(r, s['iters'], 'const')
    pos = 0
    kept = 0
    for r in clicks:
        lhs = [r['lhs']['type'], r['lhs']['params']]
        y = ys[repr((r['ab'], r['pf']))]
        v = verdict(lhs, y, t, s['acc'], trunc)
        here = pos < len(after) and after[pos]['ab'] == r['ab'] and after[pos]['pf'] == r['pf'] and \
            after[pos]['lhs']['type'] == lhs[0] and same_up_to_int(lhs[0], lhs[1], after[pos]['lhs']['params'])
        if v and not here:
            raise Violation('%r is a true match to %d digits, but dropped: %r' % (r, s['acc'], s))
        if v is False and here:
            # an equal one may follow (another left-hand side that is the same function)
            here = False
        if here:
            if v:
                kept += 1
                exact = O.lhs_value(lhs[0], after[pos]['lhs']['params'], t)
                if trunc and abs(O.mp_of(exact) - y[0]) > mpf(10) ** -s['acc'] + y[1] + mpf(10) ** -40:
                    raise Violation('%r is completed to %r, worth %s instead of %s: %r'
                                    % (r, after[pos]['lhs'], O.mp_of(exact), y[0], s))
            pos += 1
    if pos != len(after):
        raise Violation('%r was kept, but is no click, or no true one to %d digits: %r' % (after[pos], s['acc'], s))
    env.nontrivial(kept and kept < len(clicks))


@st.composite
def sessions(draw):
    s = draw(M.session())
    s['acc'] = draw(st.integers(1, 4))
    s['iters'] = draw(st.sampled_from([4, 8, 20, 40]))
    return s


PARTS = [Part('clicks', case(), check, 1500), Part('long', long_case(), check, 24), Part('searches', sessions(), session_check, 400)]
