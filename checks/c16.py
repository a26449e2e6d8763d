"""Fast or slow convergence.  The oracle computes exactly by how much the error of the true convergents shrinks."""
from hypothesis import strategies as st

import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C16'
RULE = ('continued fractions (families of every growth, near and far from the border between geometric and slower '
        'convergence, and random ones) judged if the exact steps of their convergents shrink by at least 1.07 over every '
        'second iteration from the first sample on (fast), or by less than 1.06 at every late one (not fast); '
        'non-trivial: the class is not told by the degrees alone (deg b >= 2 deg a - 1), or a list with results of both '
        'kinds')

FAST, SLOW = 1.07, 1.06


def ratios(a, b, n0, n1):
    """|c(n+2)-c(n)| / |c(n+4)-c(n+2)| for n0 <= n <= n1, exactly, or None where it isn't defined; 'finite' if the
    fraction ends before."""
    av, bv = O.ab_values(a, b, n1 + 5)
    if any(x == 0 for x in bv[1:]):
        return 'finite'
    q = [1]
    q_1 = 0
    for i in range(1, n1 + 6):
        q.append(av[i] * q[-1] + bv[i] * q_1)
        q_1 = q[-2]
    out = []
    for n in range(n0, n1 + 1):
        num = abs(av[n + 2] * q[n + 4])
        den = abs(av[n + 4] * bv[n + 2] * bv[n + 3] * q[n])
        if den == 0 or q[n + 2] == 0:
            out.append(None)
            continue
        try:
            out.append(num / den)
        except OverflowError:
            out.append(float('inf') if num > den else 0.0)
    return out


def classify(a, b, iters=600, cutoff=200, step=50):
    """True / False / 'finite', or None if not to be judged."""
    last = range(cutoff + step, iters + 1, step)
    if not last:
        return None
    r = ratios(a, b, cutoff, iters)
    if r == 'finite':
        # the fraction has to end among the iterations that are made for sure
        av, bv = O.ab_values(a, b, cutoff)
        return 'finite' if any(x == 0 for x in bv[1:]) else None
    if None in r:
        return None
    if min(r) >= FAST:
        return True
    late = r[-2 * step - 10:]
    if max(late) <= SLOW:
        return False
    return None


nz = st.integers(-6, 6).filter(bool)


def ppow(p, n):
    out = [1]
    for _ in range(n):
        out = [int(x) for x in O.pmul(out, p)]
    return out


@st.composite
def pair(draw):
    kind = draw(st.sampled_from(['border', 'border', 'degrees', 'degrees', 'twisted', 'random', 'constant', 'finite']))
    if kind == 'border':
        # a = k n^m.., b = (D - k^2)/4 n^2m..: the error shrinks by ((k+sqrt D)/(k-sqrt D))^2 every second iteration
        k = draw(st.sampled_from([1, 2, 3, 5, 10, 17, 30, 41, 50, 55, 58, 60, 63, 70, 90]))
        k = k * draw(st.sampled_from([1, -1]))
        d = draw(st.sampled_from([1, 1, 1, 2, 4, 5, -1, -2, -5, 9, 0]))
        m = draw(st.sampled_from([0, 0, 1, 2]))
        f = [draw(st.integers(-3, 3)) for _ in range(m)] + [1]
        a = [2 * k * x for x in f]
        b = [(4 * d - 4 * k * k) // 4 * x for x in ppow(f, 2)]
        if m and draw(st.booleans()):
            b = [x + draw(st.integers(-2, 2)) for x in b[:-1]] + b[-1:]
        return [[a], [b]]
    if kind == 'constant':
        return [[[draw(st.integers(-9, 9))]], [[draw(st.integers(-30, 9))]]]
    if kind == 'degrees':
        m = draw(st.integers(0, 3))
        n = max(0, 2 * m + draw(st.integers(-2, 3)))
        return [[[draw(st.integers(-5, 5)) for _ in range(m)] + [draw(nz)]],
                [[draw(st.integers(-5, 5)) for _ in range(n)] + [draw(st.integers(-50, 50).filter(bool))]]]
    if kind == 'twisted':
        m = draw(st.integers(0, 2))
        n = max(0, 2 * m + draw(st.integers(-2, 2)))
        ka, kb = draw(st.sampled_from([(1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 3)]))
        return [[[draw(st.integers(-5, 5)) for _ in range(m)] + [draw(nz)] for _ in range(ka)],
                [[draw(st.integers(-5, 5)) for _ in range(n)] + [draw(nz)] for _ in range(kb)]]
    if kind == 'finite':
        r = draw(st.integers(1, 12))
        p = [int(x) for x in O.pmul([-r, 1], draw(S.coeffs(2, -4, 4)) or [1])] or [0]
        bs = [p]
        if draw(st.booleans()):
            bs.insert(draw(st.integers(0, 1)), draw(S.coeffs(2, -4, 4)))
        return [draw(S.cf_polys(2, 2, -5, 5)), bs]
    return [draw(S.cf_polys(2, 3, -6, 6)), draw(S.cf_polys(2, 4, -6, 6))]


def by_degrees(a, b):
    return len(a) == len(b) == 1 and O.degree(b[0]) < 2 * O.degree(a[0]) - 1


@st.composite
def single(draw):
    a, b = draw(pair())
    kw = {}
    if draw(st.integers(0, 3)) == 0:
        kw = draw(st.sampled_from([{'iters': 300}, {'initial_cutoff': 100, 'iters': 400}, {'iters_step': 20},
                                   {'iters': 260, 'initial_cutoff': 150, 'iters_step': 7}, {'iters_step': 100},
                                   {'initial_cutoff': 400}]))
    return {'a': a, 'b': b, 'kw': kw}


def check_single(c, env):
    kw = c['kw']
    want = classify(c['a'], c['b'], kw.get('iters', 600), kw.get('initial_cutoff', 200), kw.get('iters_step', 50))
    if want is None:
        env.label('not judged')
        return
    first, second, count = env.ok('cf_fast', a=c['a'], b=c['b'], kw=kw)
    if want == 'finite':
        env.label('finite')
        for r in (first, second):
            if r[0] != 'exc' or r[1] != 'ZeroB':
                raise Violation('a=%r b=%r: a fraction that ends is classified: %r' % (c['a'], c['b'], r))
        return
    for r in (first, second):
        if r != ['ok', want]:
            raise Violation('a=%r b=%r %r: fast converging is %r, but the classification gave %r'
                            % (c['a'], c['b'], kw, want, r))
    if count != 0:
        raise Violation('a=%r b=%r: %r iterations are left after the classification' % (c['a'], c['b'], count))
    env.label('fast' if want else 'slow', *(['other samples'] if kw else []))
    env.nontrivial(not by_degrees(c['a'], c['b']))


@st.composite
def results(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        a, b = draw(pair())
        lhs = draw(st.sampled_from([['ulcd', [1, 2, 1, 3]], ['rationalfunc', [[0, 1], [2, 1], 3]],
                                    ['rationalfunc', [[0, 2], [4, 2], -1]]]))
        out.append({'a': a, 'b': b, 'pf': draw(st.integers(0, 11)), 'lhs': lhs})
    return {'results': out, 'print': draw(st.sampled_from([None, None, False, True]))}


@st.composite
def long_results(draw):
    c = draw(results())
    rs = c['results'] + draw(results())['results']
    n, s = draw(st.integers(15, 120)), draw(st.integers(1, 9))
    return dict(c, results=[rs[(i * i + s * i) % len(rs)] for i in range(n)])


def check_list(c, env):
    marked, want, known = [], [], {}
    for r in c['results']:
        key = repr((r['a'], r['b']))
        if key not in known:
            known[key] = classify(r['a'], r['b'])
        w = known[key]
        if w is None:
            env.label('not judged')
            continue
        env.label('finite' if w == 'finite' else 'fast' if w else 'slow')
        i = len(marked)
        marked.append({'ab': [r['a'], r['b']], 'lhs': r['lhs'], 'pf': r['pf'], 'conv': ['exp', [i, 1]]})
        if w is True:
            want.append(i)
    if not marked:
        return
    step = ['exp'] if c['print'] is None else ['exp', c['print']]
    out = env.ok('mitm', steps=[['new', {'target': {'value': '1.3'}, 'pfs': [0], 'hp': 5, 'iters': 5}],
                                ['set', marked], ['get'], step, ['get'], step, ['get']])
    before, after, again = out[2], out[4], out[6]
    if after != [before[i] for i in want]:
        raise Violation('of the results %r those with %r are left, instead of %r'
                        % ([m['ab'] for m in marked], [r['ab'] for r in after], [marked[i]['ab'] for i in want]))
    if again != after:
        raise Violation('filtering again left %r of %r' % (again, after))
    env.nontrivial(0 < len(want) < len(marked))


_R = {'pf': 0, 'lhs': ['ulcd', [1, 2, 1, 3]]}
PARTS = [Part('classification', single(), check_single, 1600,
              examples=[{'a': [[1]], 'b': [[1]], 'kw': {}}, {'a': [[1, 2]], 'b': [[0, 0, 1]], 'kw': {}},
                        {'a': [[6]], 'b': [[1, -4, 4]], 'kw': {}}, {'a': [[1]], 'b': [[-3]], 'kw': {}},
                        {'a': [[3, 1]], 'b': [[0, -1]], 'kw': {}}]),
         Part('filter', results(), check_list, 900,
              # one of which the rate can't be estimated, and one that ends
              examples=[{'results': [dict(_R, a=[[3], [-2]], b=[[2]]), dict(_R, a=[[1]], b=[[1]])], 'print': True},
                        {'results': [dict(_R, a=[[1]], b=[[-1, 0, 0, 1]]), dict(_R, a=[[1]], b=[[1]])],
                         'print': None}]),
         Part('long', long_results(), check_list, 24)]
