from hypothesis import strategies as st

import oracle as O
import strat as S
import c11
from pbt import Part, Violation

PROPERTY = 'C14'
RULE = ('random lists of results, most of them disguises or near misses of each other (negated, partly negated, cut or changed a, changed b, '
        'other post-function, left-hand side with a common factor, negated, inverted, an integer or less added); '
        'non-trivial: at least one result is dropped and two are kept')


@st.composite
def result(draw):
    kind = draw(st.sampled_from(['ulcd', 'rationalfunc', 'rationalfunc']))
    if kind == 'ulcd':
        params = draw(c11.ulcd())
    else:
        params = draw(c11.rational().filter(lambda r: not O.is_constant_ratio(r[0], r[1])))
    return {'ab': [draw(S.cf_polys(2, 2, -3, 3)), draw(S.cf_polys(2, 2, -3, 3))], 'lhs': [kind, params],
            'pf': draw(st.sampled_from([0, 0, 1, 2, 3, 10, 11]) if draw(st.integers(0, 3)) else st.integers(0, O.NPOST - 1))}


def mul(g, p):
    return [int(x) for x in O.pmul(g, p)]


@st.composite
def variant(draw, r):
    ab = [[list(p) for p in ps] for ps in r['ab']]
    kind, params = r['lhs']
    pf = r['pf']
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3]))):
        op = draw(st.sampled_from(['nega', 'nega', 'nega1', 'cut', 'a', 'b', 'negb', 'pf', 'inv', 'lhs', 'lhs', 'lhs', 'lhs']))
        if op == 'nega':
            ab[0] = [[-x for x in p] for p in ab[0]]
        elif op == 'nega1':
            k = draw(st.integers(0, len(ab[0]) - 1))
            if draw(st.booleans()):
                ab[0][k] = [-x for x in ab[0][k]]
            else:
                j = draw(st.integers(0, len(ab[0][k]) - 1))
                ab[0][k][j] *= -1
        elif op == 'cut':
            # the beginning of another, or one longer
            k = draw(st.integers(0, 1))
            if len(ab[k]) > 1 and draw(st.booleans()):
                ab[k].pop()
            elif len(ab[k]) < 3:
                ab[k].append(list(draw(st.sampled_from(ab[k]))))
        elif op == 'negb':
            ab[1] = [[-x for x in p] for p in ab[1]]
        elif op in 'ab':
            ps = ab['ab'.index(op)]
            p = draw(st.sampled_from(ps))
            j = draw(st.integers(0, len(p) - 1))
            p[j] += draw(st.sampled_from([1, -1]))
        elif op == 'pf':
            pf = draw(st.sampled_from([0, 1, 2, 3, 10, 11, pf ^ 1, (pf + 1) % O.NPOST, (pf + 12) % O.NPOST]))
        elif kind == 'ulcd':
            u, l, c, d = params
            params = list(draw(st.sampled_from([(-u, -l, -c, d), (u, l, c, -d), (2 * u, l, 2 * c, 2 * d), (u, l, c + d, d),
                                                (u + 1, l, c, d), (u, -l, c, d), (-u, -l, -c, -d), (u, l, -c, d),
                                                (2 * u, 2 * l, 2 * c, 2 * d), (u, l, c, 2 * d),
                                                (2 * u, l // 2 or 1, 2 * c, 2 * d), (3 * u, l, 3 * c, 3 * d)]
                                               + [(s0 * k * u, s1 * (l // k or 1), s2 * k * c, k * d)
                                                  for k in (2, 3) for s0 in (1, -1) for s1 in (1, -1)
                                                  for s2 in (1, -1)])))
        else:
            p, q, n = params
            how = draw(st.sampled_from(['neg', 'negden', 'factor', 'factor', 'int', 'into', 'half', 'coef', 'num', 'inv']))
            if op == 'inv' or how == 'inv':
                P, Q = O.whole((p, q, n))
                if not P:
                    continue
                p, q, n = [int(x) for x in Q], [int(x) for x in P], 0
                pf ^= 1
            elif how == 'neg':
                p, n = [-x for x in p], -n
            elif how == 'negden':
                p, q = [-x for x in p], [-x for x in q]
            elif how == 'factor':
                g = draw(c11.poly(2, -2, 2))
                p, q = mul(g, p), mul(g, q)
            elif how == 'int':
                n += draw(st.integers(-3, 3))
            elif how == 'into':
                P, Q = O.whole((p, q, n))
                p, q, n = [int(x) for x in P], [int(x) for x in Q], 0
            elif how == 'half':
                # a half added
                p2 = [int(x) for x in O.padd([2 * x for x in p], q)]
                p, q = p2, [2 * x for x in q]
            elif how == 'coef':
                p = list(p)
                p[draw(st.integers(0, len(p) - 1))] += 1
            elif how == 'num':
                p = [2 * x for x in p]
            if not any(p) or not any(q) or O.is_constant_ratio(p, q):
                continue
            params = [p, q, n]
    return {'ab': ab, 'lhs': [kind, params], 'pf': pf}


@st.composite
def case(draw):
    out = [draw(result())]
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 5)) == 0:
            out.append(draw(result()))
        else:
            out.append(draw(variant(draw(st.sampled_from(out)))))
    return {'results': out, 'target': draw(S.targets())}


def filler(i, kind):
    if kind % 3 == 0:
        return {'ab': [[[1]], [[1]]], 'lhs': ['ulcd', [1, i + 2, 0, 1]], 'pf': 0}
    if kind % 3 == 1:
        return {'ab': [[[1, i + 2]], [[1]]], 'lhs': ['rationalfunc', [[0, 1], [1], 0]], 'pf': 0}
    return {'ab': [[[1]], [[1]]], 'lhs': ['rationalfunc', [[0, 1], [i + 2], 0]], 'pf': 0}


@st.composite
def long_case(draw):
    """The results of a short list, with many others between them."""
    c = draw(case())
    rs = c['results']
    out = []
    i = 0
    kind = draw(st.integers(0, 2))
    gaps = draw(st.lists(st.sampled_from([0, 3, 12, 35]), min_size=len(rs), max_size=len(rs)))
    gaps[draw(st.integers(0, len(rs) - 2))] = draw(st.integers(20, 130))
    for r, g in zip(rs, gaps):
        out.append(r)
        for _ in range(g):
            out.append(filler(i, kind + i))
            i += 1
    return dict(c, results=out)


def poly_ratio(kind, params):
    """The left-hand side as P/Q."""
    if kind == 'ulcd':
        u, l, c, d = params
        # (u l + x^2 + c l x) / (l d x)
        return O.ptrim([u * l, c * l, 1]), O.ptrim([0, l * d])
    return O.whole(params)


def neg(ps):
    return [[-x for x in p] for p in ps]


def same_rhs(r1, r2):
    """Same b, and a: 1 the same, -1 negated, 0 different."""
    (a1, b1), (a2, b2) = r1['ab'], r2['ab']
    if b1 != b2:
        return 0
    if a1 == a2:
        return 1
    return -1 if a1 == neg(a2) else 0


def may_replace(k, d):
    """Is d a redundant form of k?"""
    if not same_rhs(k, d) or k['lhs'][0] != d['lhs'][0]:
        return False
    P1, Q1 = poly_ratio(*k['lhs'])
    P2, Q2 = poly_ratio(*d['lhs'])
    if k['pf'] != d['pf']:
        if k['pf'] != d['pf'] ^ 1:
            return False
        P2, Q2 = Q2, P2
        if not Q2:
            return False
    return O.differ_by_integer(P1, Q1, P2, Q2) or O.differ_by_integer(P1, Q1, [-x for x in P2], Q2)


def must_replace(k, d):
    if k['pf'] != d['pf'] or k['lhs'][0] != d['lhs'][0]:
        return False
    s = same_rhs(k, d)
    if not s:
        return False
    if k['lhs'][0] == 'ulcd':
        return s == 1 and k['lhs'] == d['lhs']
    P1, Q1 = poly_ratio(*k['lhs'])
    P2, Q2 = poly_ratio(*d['lhs'])
    return O.same_function(P1, Q1, P2, Q2) or (s == -1 and O.same_function(P1, Q1, P2, Q2, -1))


def check(c, env):
    t = O.Fr(c['target'])
    rs = [r for r in c['results'] if nonzero(r, t)]
    marked = [dict(r, conv=['exp', [i, 1]]) for i, r in enumerate(rs)]
    out = env.ok('mitm', steps=[['new', {'target': {'value': c['target']}, 'pfs': [0], 'hp': 5, 'iters': 5}],
                                ['set', marked], ['uniq'], ['get'], ['uniq'], ['get']])
    kept = [r['conv'][1][0] for r in out[3]]
    if kept != sorted(set(kept)):
        raise Violation('the kept results are numbers %r of %r' % (kept, rs))
    for r in out[3]:
        o = rs[r['conv'][1][0]]
        if r['ab'] != o['ab'] or r['pf'] != o['pf'] or r['lhs']['type'] != r['lhs']['type']:
            raise Violation('a kept result changed from %r to %r' % (o, r))
        if not O.same_function(*poly_ratio(o['lhs'][0], r['lhs']['params']), *poly_ratio(*o['lhs'])):
            raise Violation('the left-hand side of a kept result changed from %r to %r' % (o, r))
    for i, r in enumerate(rs):
        if i not in kept:
            if not any(k < i and may_replace(rs[k], r) for k in kept):
                raise Violation('%r was dropped, but is equivalent to none of the kept %r' % (r, [rs[k] for k in kept]))
            env.label('dropped: ' + r['lhs'][0])
        else:
            for k in kept:
                if k < i and must_replace(rs[k], r):
                    raise Violation('%r is kept beside %r' % (r, rs[k]))
    if [r['conv'][1][0] for r in out[5]] != kept:
        raise Violation('filtering again leaves other results: %r' % (rs,))
    env.nontrivial(len(kept) >= 2 and len(kept) < len(rs))


def nonzero(r, t):
    P, Q = poly_ratio(*r['lhs'])
    if r['lhs'][0] == 'ulcd':
        return True
    p, q, n = r['lhs'][1]
    return O.poly_at(p, t) != 0 and O.poly_at(q, t) != 0


PARTS = [Part('long', long_case(), check, 40), Part('lists', case(), check, 2000, examples=[
    {'results': [{'ab': [[[1]], [[1]]], 'lhs': ['rationalfunc', [[0, 1], [1], 0]], 'pf': 0},
                 {'ab': [[[1]], [[1]]], 'lhs': ['rationalfunc', [[0, 1], [2], 0]], 'pf': 0}], 'target': '1.234567'}])]
