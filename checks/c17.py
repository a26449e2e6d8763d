"""Kind and rate of convergence.  The oracle is the exact behaviour of the convergents, see c16."""
import math
from fractions import Fraction as Fr

import mpmath
from hypothesis import strategies as st
from mpmath import mpf

import c16
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C17'
RULE = ('continued fractions whose exact convergents approach their limit geometrically, faster, or polynomially, at '
        'several working precisions; accuracy goals with estimated and with exactly known convergence; lists of results '
        'filtered by white- and blacklists and refined. Non-trivial: of non-constant polynomials; the goal stops the '
        'iterations before the bound; some results are kept and others dropped')
ASSUMPTIONS = ['kinds are judged where the exact ratios of successive errors are on one side for all the iterations '
               'that could be sampled, rates where these ratios are nearly constant']


def kind_of(a, b):
    """('exp', lowest, highest base) | 'fast' (faster than geometrically) | ('poly', lowest, highest exponent) | None."""
    r = c16.ratios(a, b, 0, 610)
    if r == 'finite':
        return 'finite'
    if None in r:
        return None
    if min(r[3:]) >= 1.3:
        if max(r[5:]) <= 1.3 * min(r[5:]):
            return ('exp', math.sqrt(min(r)), math.sqrt(max(r)))
        if min(r[1:]) > 2:
            return 'fast'
        return None
    if min(r[190:]) > 1 and max(r[190:]) < 1.06:
        s = [(x - 1) * (n + 2) / 2 - 1 for n, x in enumerate(r)][195:606]
        if max(s) - min(s) < 0.3 and min(s) > 0.1:
            return ('poly', min(s), max(s))
    return None


@st.composite
def geometric(draw):
    k = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 11, 15]))
    d = draw(st.integers(1, 4 * k) | st.integers(1, 3 * k * k))
    if d == k * k:
        d += 1
    m = draw(st.sampled_from([0, 0, 1, 1, 2]))
    f = [draw(st.integers(0, 6)) for _ in range(m)] + [1]
    a = [2 * k * x for x in f]
    b = [(d - k * k) * x for x in c16.ppow(f, 2)]
    if m and draw(st.booleans()):
        b = [x + draw(st.integers(-2, 2)) for x in b[:-1]] + b[-1:]
    return [[a], [b]]


@st.composite
def quick(draw):
    m = draw(st.integers(1, 3) | st.integers(1, 9))
    n = draw(st.integers(0, 2 * m - 1) | st.integers(0, 1))
    a = [draw(st.integers(0, 9)) for _ in range(m)] + [draw(st.integers(1, 9)) * 10 ** draw(
        st.sampled_from([0, 0, 0, 0, 1, 2, 3, 5, 10, 20]))]
    b = [draw(st.integers(0, 5)) for _ in range(n)] + [draw(st.integers(1, 5))]
    s = draw(st.sampled_from([1, 1, -1]))
    return [[[s * x for x in a]], [b]]


@st.composite
def polynomial(draw):
    # a = 2n+c, b = -(n+d)(n+e): the root of the recurrence is double
    how = draw(st.integers(0, 2))
    if how == 0:
        c, x = draw(st.integers(0, 9)), draw(st.integers(0, 20))
        return [[[c, 2]], [[-x, -draw(st.integers(-3, 3)), -1]]]
    if how == 1:
        # a constant, b of degree 2, as for pi = 3 + 1/(6+9/(6+25/...
        c = draw(st.integers(1, 12))
        k = draw(st.integers(1, 4))
        return [[[c]], [[draw(st.integers(0, 9)), draw(st.integers(-9, 9)), k]]]
    c = draw(st.integers(1, 5))
    return [[[draw(st.integers(-3, 9)), c]], [[draw(st.integers(0, 9)) for _ in range(4)] + [draw(st.integers(1, 3))]]]


@st.composite
def pair(draw):
    k = draw(st.sampled_from(['g', 'g', 'g', 'q', 'q', 'p', 'p', 'other', 'inter']))
    if k == 'g':
        return draw(geometric())
    if k == 'q':
        return draw(quick())
    if k == 'p':
        return draw(polynomial())
    if k == 'inter':
        # the same twice, or two that are alike
        a, b = draw(geometric() | quick())
        w = draw(st.integers(0, 2))
        return [a * (2 if w else 1), [b[0], b[0][:-1] + [b[0][-1] + draw(st.integers(0, 1))]] if w < 2 else b]
    return draw(c16.pair())


def judge_info(where, k, info, env, dps):
    """k: the truth. info: as encoded by the worker."""
    typ, par = info
    if k == 'fast':
        env.label('faster')
        if typ not in ('exp', 'super_exp', 'fast'):
            raise Violation('%s: converges faster than geometrically, but is estimated %r %r' % (where, typ, par))
        return
    if k[0] == 'exp':
        env.label('geometric')
        if typ != 'exp':
            raise Violation('%s: converges geometrically, with base %.4f to %.4f, but is estimated %r %r'
                            % (where, k[1], k[2], typ, par))
        base, coeff = O.num(par[0]), O.num(par[1])
        slack = Fr(3, 100) if k[1] > 1.2 else Fr(1, 100)
        if not Fr(k[1]) * (1 - slack) <= base <= Fr(k[2]) * (1 + slack):
            raise Violation('%s: the rate of convergence is %.6f to %.6f, but is estimated %.6f'
                            % (where, k[1], k[2], float(base)))
        if coeff <= 0:
            raise Violation('%s: the coefficient of the error is estimated %r' % (where, float(coeff)))
        return
    env.label('polynomial')
    if typ in ('exp', 'super_exp', 'fast'):
        raise Violation('%s: converges polynomially, as n^-%.3f, but is estimated %r %r' % (where, k[1], typ, par))
    if typ == 'poly2sympoly':
        s = float(O.num(par[0]))
        if not k[1] - 0.15 <= s <= k[2] + 0.15:
            raise Violation('%s: converges polynomially, as n^-%.3f to n^-%.3f, but as n^-%.3f is estimated'
                            % (where, k[1], k[2], s))


@st.composite
def estimate(draw):
    a, b = draw(pair())
    return {'a': a, 'b': b, 'dps': draw(st.sampled_from([50, 50, 50, 70, 100, 150, 400]))}


def check_estimate(c, env):
    k = kind_of(c['a'], c['b'])
    if k is None or k == 'finite':
        env.label('not judged')
        return
    where = 'a=%r b=%r at %d digits' % (c['a'], c['b'], c['dps'])
    if k[0] == 'exp' and 26 * math.log10(k[2]) > c['dps'] - 15:
        env.label('not judged: too fast for the precision')
        return
    out = env.ok('cf_approach', a=c['a'], b=c['b'], dps=c['dps'])
    judge_info(where, k, out[0], env, c['dps'])
    env.nontrivial(any(len(p) > 1 for p in c['a'] + c['b']))
    if k[0] == 'exp' and all(len(p) == 1 for p in c['a'] + c['b']) and len(c['a']) == len(c['b']) == 1:
        # exactly geometric: x - c_n is about (x - x2) (x2/x)^(n+1)
        al, be = c['a'][0][0], c['b'][0][0]
        with mpmath.workdps(60):
            d = mpmath.sqrt(al * al + 4 * be)
            x1, x2 = sorted([(al + d) / 2, (al - d) / 2], key=abs, reverse=True)
            true = abs(x1 - x2) * abs(x2 / x1)
            got = O.mp_of(O.num(out[0][1][1]))
            if not true / 3 <= got <= true * 3:
                raise Violation('%s: the error is about %s base^-n, but the coefficient is estimated %s'
                                % (where, mpmath.nstr(true, 8), mpmath.nstr(got, 8)))
        env.label('coefficient')


@st.composite
def goal(draw):
    a, b = draw(geometric() | quick())
    if draw(st.integers(0, 3)) == 0:
        # all of its convergents times r
        r = draw(st.integers(2, 10 ** 9))
        a, b = [[r * x for x in p] for p in a], [[r * r * x for x in p] for p in b]
    return {'a': a, 'b': b, 'dps': draw(st.sampled_from([50, 50, 80, 150])), 'given': draw(st.booleans()),
            'cushion': draw(st.sampled_from([0, 0, 1, 5, 30])),
            'goals': draw(st.lists(st.tuples(st.sampled_from([0, 1, 3, 10, 30, 100, 300, 700]),
                                             st.integers(1, 40)), min_size=1, max_size=4))}


def check_goal(c, env):
    k = kind_of(c['a'], c['b'])
    if k is None or k == 'finite' or k[0] == 'poly' or (k != 'fast' and k[1] < 1.15):
        env.label('not judged')
        return
    info = None
    if c['given'] and k == 'fast':
        env.label('not judged')
        return
    av, bv = O.ab_values(c['a'], c['b'], 800)
    cv = O.convergents(av, bv)
    if any(q == 0 for _, q in cv):
        env.label('not judged')
        return

    def val(i):
        with mpmath.workdps(c['dps'] + 120):
            return mpf(cv[i][0]) / mpf(cv[i][1])
    dps = c['dps']
    if c['given']:
        # correct information: base as it is at the slowest, and the least coefficient that bounds all the errors
        base = mpf(k[1]) * mpf('0.9999')
        coeff = mpf(0)
        with mpmath.workdps(dps + 120):
            for i in range(0, 300):
                e = abs(val(i) - val(800))
                if e < mpf(10) ** (-dps - 60):
                    break
                coeff = max(coeff, e * base ** i)
            coeff *= mpf(10) ** c['cushion']
        info = ['exp', [{'s': mpmath.nstr(base, 40)}, {'s': mpmath.nstr(coeff, 40)}]]
    goals = [[n, '1e-%d' % g] for n, g in c['goals']]
    out = env.ok('cf_approach', a=c['a'], b=c['b'], goals=goals, info=info, dps=dps)
    where = 'a=%r b=%r at %d digits, convergence %r' % (c['a'], c['b'], dps, info or out[0])
    for (n, g), (count, res) in zip(c['goals'], out[1:]):
        if not 0 <= count <= n:
            raise Violation('%s: %d iterations were made of %d allowed ones' % (where, count, n))
        got = O.num(res)
        if not O.is_num(got):
            raise Violation('%s: the result is %r' % (where, got))
        with mpmath.workdps(dps + 120):
            got = O.mp_of(got)
            exact = val(count)
            eps = mpf(10) ** (3 - dps) * (1 + abs(exact))
            if abs(got - exact) > eps:
                raise Violation('%s: %d iterations are claimed to have been made, but the result isn\'t that convergent'
                                % (where, count))
            acc = mpf(10) ** -g
            err = abs(exact - val(800))
            if c['given']:
                allowed = max(acc, abs(val(n) - val(800)) if count == n else 0)
                if err > allowed * mpf('1.001'):
                    raise Violation('%s: after %d of %d iterations the error is %s, though %s was asked for'
                                    % (where, count, n, mpmath.nstr(err, 5), mpmath.nstr(acc, 5)))
                if g >= 8 and count < n:
                    env.label('goal stops')
                    env.nontrivial()
                    # and it is worth it: the number is that of the information
                    need = mpmath.ln(max(coeff, base) / acc) / mpmath.ln(base)
                    if count > need + 2:
                        raise Violation('%s: %d iterations, where %s are enough for %s'
                                        % (where, count, mpmath.nstr(need, 5), mpmath.nstr(acc, 5)))
                elif count == n:
                    env.label('bound stops')
            elif k != 'fast':
                # as good as the estimated rate
                slack = mpf('0.93')
                if count < n and err > acc ** slack * 100:
                    raise Violation('%s: after %d of %d iterations the error is %s, though %s was asked for'
                                    % (where, count, n, mpmath.nstr(err, 5), mpmath.nstr(acc, 5)))
                if g >= 8 and count < n:
                    env.label('goal stops (estimated)')
                    env.nontrivial()


@st.composite
def reuse(draw):
    goals = st.lists(st.tuples(st.sampled_from([0, 1, 3, 10, 30, 100, 300, 700]), st.integers(1, 40)), min_size=1,
                     max_size=3).map(lambda gs: [[n, '1e-%d' % g] for n, g in gs])
    ab, was = draw(geometric() | quick() | polynomial()), draw(geometric() | quick())
    return {'a': ab[0], 'b': ab[1], 'was': {'a': was[0], 'b': was[1], 'goals': draw(goals | st.just([])),
                                            'now': draw(st.booleans())}, 'goals': draw(goals)}


def check_reuse(c, env):
    """An object that served for another fraction does what a new one does."""
    av, bv = O.ab_values(c['a'], c['b'], 800)
    if any(q == 0 for _, q in O.convergents(av, bv)) or 0 in bv[1:] or c['a'] == c['was']['a']:
        env.label('not judged')
        return
    wv = O.ab_values(c['was']['a'], c['was']['b'], 800)
    if any(q == 0 for _, q in O.convergents(*wv)) or 0 in wv[1][1:]:
        env.label('not judged')
        return
    out = env.ok('cf_approach', **c)
    where = 'a=%r b=%r after a=%r b=%r' % (c['a'], c['b'], c['was']['a'], c['was']['b'])
    if c['was']['now']:
        for (n, g), (count, res) in zip(c['goals'], out[1:]):
            if count != n:
                raise Violation('%s: only %d of %d iterations were made, though nothing is known of how it converges'
                                % (where, count, n))
        env.label('unknown again')
    elif out != env.ok('cf_approach', a=c['a'], b=c['b'], goals=c['goals']):
        raise Violation('%s: %r instead of what a new object gives' % (where, out))
    env.nontrivial()


LISTS = [[['exp', 'super_exp'], None], [['exp', 'super_exp', 'fast'], None], [['poly2sympoly'], None],
         [None, ['poly2sympoly']], [None, ['exp', 'super_exp', 'fast']], [['exp'], []], [[], ['mixed', 'undefined']],
         [['fast', 'poly2sympoly', 'super_exp', 'exp'], None], [['undefined'], None]]


@st.composite
def results(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        a, b = draw(pair())
        out.append({'a': a, 'b': b, 'pf': draw(st.sampled_from([0, 0, 0, 1, 2])), 'n': draw(st.integers(-3, 3)),
                    'u': draw(st.integers(-3, 3)), 'digits': draw(st.integers(0, 45)),
                    'off': draw(st.integers(1, 5))})
    return {'results': out, 'lists': draw(st.sampled_from(LISTS[:1] * 6 + LISTS)),
            'acc': draw(st.integers(3, 35)), 'iters': draw(st.sampled_from([40, 100, 300, 600])),
            'target': draw(S.targets())}


@st.composite
def long_results(draw):
    """Many, told apart by the integers of the left-hand sides."""
    c = draw(results())
    rs = c['results'] + draw(results())['results']
    n, s = draw(st.integers(12, 60)), draw(st.integers(1, 9))
    return dict(c, results=[dict(rs[(i * i + s * i) % len(rs)], n=i - 5) for i in range(n)])


def check_filter(c, env):
    """Filters, then refines."""
    white, black = c['lists']
    marked, kinds, sides, known = [], [], [], {}
    t = O.frac_of(c['target'])
    for r in c['results']:
        key = repr((r['a'], r['b']))
        if key not in known:
            known[key] = [kind_of(r['a'], r['b'])]
        k = known[key][0]
        if k is None:
            env.label('not judged')
            continue
        if k != 'finite' and k != 'fast' and k[0] == 'exp' and 26 * math.log10(k[2]) > 35:
            env.label('not judged')
            continue
        if k == 'fast' and 'fast' not in (white or black) and 'exp' in (white or black):
            pass
        try:
            if len(known[key]) == 1:
                known[key].append(O.cf_limit(r['a'], r['b'], 250, 330) if k != 'finite' else (Fr(1), Fr(0)))
            y, move = known[key][1]
            side = O.post_value(r['pf'], O.mp_of(y), mpf(10) ** -45 * (1 + abs(O.mp_of(y))))[0]
        except O.Bad:
            continue
        if side is None or abs(side) > 10 ** 6 or abs(side) < mpf(10) ** -3:
            env.label('not judged')
            continue
        # (u t + c)/10^digits + n, near to the side up to its sign
        D = 10 ** r['digits']
        with mpmath.workdps(120):
            c0 = int(mpmath.nint(side * D - r['u'] * O.mp_of(t))) + r['off']
        i = len(marked)
        marked.append({'ab': [r['a'], r['b']], 'lhs': ['rationalfunc', [[c0, r['u']], [D], r['n']]], 'pf': r['pf']})
        kinds.append((k, y, move))
        sides.append((side, (c0 + r['u'] * t) / D))
    if not marked:
        return
    out = env.ok('mitm', steps=[['new', {'target': {'value': c['target']}, 'pfs': [0], 'hp': 5, 'iters': 5}],
                                ['set', marked], ['get'], ['approach', white, black], ['get'],
                                ['refine_conv', c['acc'], c['iters']], ['get']])
    before, mid, after = out[2], out[4], out[6]

    def sure(k, types):
        """Is the type surely among these (True), surely not (False)?"""
        if k == 'finite':
            return None
        if k == 'fast':
            s = {'exp', 'super_exp', 'fast'}
        elif k[0] == 'exp':
            s = {'exp'}
        else:
            s = {'poly2sympoly'}
        return True if s <= set(types) else False if not s & set(types) else None
    # what is left is an ordered part of what there was
    left = []
    pos = 0
    for m in mid:
        while pos < len(before) and any(before[pos][x] != m[x] for x in ('ab', 'pf', 'lhs')):
            pos += 1
        if pos == len(before):
            raise Violation('the results left %r are not among, or not in the order of, %r' % (mid, before))
        left.append(pos)
        pos += 1
    same = [[b[x] for x in ('ab', 'pf', 'lhs')] for b in before]
    if len({repr(s) for s in same}) == len(same):
        for i, (k, _, _) in enumerate(kinds):
            if k == 'finite':
                env.label('finite')
                if i in left:
                    raise Violation('a fraction that ends is left by the filter: %r' % before[i])
                continue
            s = sure(k, white or black)
            if s is None:
                continue
            want = s if white else not s
            if want != (i in left):
                raise Violation('a=%r b=%r, of kind %r, is %s by whitelist %r, blacklist %r'
                                % (before[i]['ab'][0], before[i]['ab'][1], k, 'kept' if i in left else 'dropped', white,
                                   black))
    else:
        return
    if before and 0 < len(left) < len(before):
        env.nontrivial()
    for i, m in zip(left, mid):
        if not isinstance(m['conv'], list) or len(m['conv']) != 2:
            raise Violation('no convergence information is attached: %r' % m)
        judge_info('a=%r b=%r' % tuple(m['ab']), kinds[i][0], m['conv'], env, 50)
    # refinement
    kept = [(a['ab'], a['pf']) for a in after]
    if len({repr(x) for x in [(m['ab'], m['pf']) for m in mid]}) < len(mid):
        return
    for i, m in zip(left, mid):
        k, y, move = kinds[i]
        if k != 'fast' and k[0] != 'exp':
            continue
        av, bv = O.ab_values(m['ab'][0], m['ab'][1], c['iters'])
        cv = O.convergents(av, bv)
        if cv[-1][1] == 0 or cv[-2][1] == 0:
            continue
        acc = c['acc']
        moves = max(abs(Fr(*cv[-1]) - y), abs(Fr(*cv[-2]) - y))
        if moves * 10 ** (acc + 9) > 1 or abs(y) * 10 ** 6 < 1:
            env.label('too few iterations')
            continue
        with mpmath.workdps(120):
            f, g = abs(sides[i][0]), abs(O.mp_of(sides[i][1]) + before[i]['lhs']['params'][2])
            f, g = f - mpmath.floor(f), g - mpmath.floor(g)
            diff = abs(f - g)
            near = abs(f * mpf(10) ** acc - mpmath.nint(f * mpf(10) ** acc))
        is_in = (m['ab'], m['pf']) in kept
        # a side may be an integer, and come out a little below it
        if min(diff, 1 - diff) > 2 * mpf(10) ** -acc:
            env.label('false one')
            if is_in:
                raise Violation('%r differ by %s, but are kept by refining to %d digits'
                                % (m, mpmath.nstr(diff, 5), acc))
        elif diff < mpf(10) ** (-acc - 4) and near > mpf('0.01'):
            env.label('true one')
            if not is_in:
                raise Violation('%r, alike up to %s, is dropped by refining to %d digits in up to %d iterations'
                                % (m, mpmath.nstr(diff, 5), acc, c['iters']))


KINDS = ['exp', 'super_exp', 'fast', 'poly2sympoly', 'mixed', 'undefined']


@st.composite
def consistent(draw):
    types = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=5, unique=True))
    # most of them of a kind that isn't among these or is none at all
    simple = S.cf_polys(maxlen=3, lo=-6, hi=6)
    return {'pairs': draw(st.lists(pair() | st.tuples(simple, simple).map(list), min_size=2, max_size=6)),
            'lists': [types, None] if draw(st.booleans()) else [None, types]}


def check_consistent(c, env):
    """What's kept is what is estimated to be of the right kind, whatever the estimate's worth."""
    white, black = c['lists']
    marked, want = [], []
    for i, (a, b) in enumerate(c['pairs']):
        r = env.call('cf_approach', a=a, b=b)
        marked.append({'ab': [a, b], 'lhs': ['rationalfunc', [[i, 1], [1], 0]], 'pf': 0})
        if r[0] != 'ok':
            env.label('no estimate')
            continue
        typ, par = r[1][0]
        env.label(str(typ))
        if typ in white if white else typ not in black:
            want.append([[a, b], i, [typ, par]])
    out = env.ok('mitm', steps=[['new', {'target': {'value': '1.3'}, 'pfs': [0], 'hp': 5, 'iters': 5}], ['set', marked],
                                ['approach', white, black], ['get']])
    got = [[m['ab'], m['lhs']['params'][0][0], m['conv']] for m in out[3]]
    if got != want:
        raise Violation('whitelist %r, blacklist %r leave %r instead of %r of %r' % (white, black, got, want, marked))
    env.nontrivial(0 < len(want) < len(marked))


@st.composite
def wrong_lists(draw):
    return draw(st.sampled_from([[None, None], [[], None], [['exp'], ['poly2sympoly']], [None, []]]))


def check_wrong(c, env):
    out = env.ok('mitm_try', steps=[['new', {'target': {'value': '1.3'}, 'pfs': [0], 'hp': 5, 'iters': 5}],
                                    ['set', []], ['approach'] + c])
    if out[2][0] != 'exc' or out[2][1] != 'ValueError':
        raise Violation('whitelist %r, blacklist %r: %r' % (c[0], c[1], out[2]))
    env.nontrivial()


PARTS = [Part('estimate', estimate(), check_estimate, 900,
              examples=[{'a': [[2]], 'b': [[27]], 'dps': 50}, {'a': [[1]], 'b': [[28]], 'dps': 50},
                        {'a': [[6, 1]], 'b': [[0, -2]], 'dps': 50}, {'a': [[117, 351, 357, 153]][:1], 'b': [[0, 0, 0, 1]],
                                                                   'dps': 50}]),
         Part('goal', goal(), check_goal, 1400),
         Part('long', long_results(), check_filter, 16),
         Part('reuse', reuse(), check_reuse, 300),
         Part('filter and refine', results(), check_filter, 600),
         Part('consistent', consistent(), check_consistent, 250),
         Part('arguments', wrong_lists(), check_wrong, 8, shards=1)]
