from fractions import Fraction as Fr
from math import gcd

from hypothesis import strategies as st

import oracle as O
import strat as S
import c11
from pbt import Part, Violation

PROPERTY = 'C12'
RULE = ('random rational functions with an added integer, and disguises of them by a common factor and another integer, '
        'after histories of added integers and flipped signs; '
        'non-trivial: the canonical form differs from what was given')


@st.composite
def case(draw):
    p, q, n = draw(c11.rational())
    if draw(st.integers(0, 4)) == 0:
        # a constant in disguise
        k = draw(st.sampled_from([1, -1, 2, 3]))
        p = [k * x for x in q]
        q = [draw(st.sampled_from([1, 2, -3])) * x for x in q]
    if draw(st.integers(0, 4)) == 0:
        # an integer and very little more (or less)
        D, k = 10 ** draw(st.integers(3, 30)), draw(st.integers(-3, 3))
        p = [int(x) for x in O.padd(p, [k * D * x for x in q])] or p
        q = [D * x for x in q]
    # some zero coefficients at the ends
    p += [0] * draw(st.sampled_from([0, 0, 0, 1, 2]))
    q += [0] * draw(st.sampled_from([0, 0, 0, 1]))
    return {'p': p, 'q': q, 'n': n, 'g': draw(c11.poly(3, -4, 4)), 'k': draw(st.integers(-4, 4)),
            'm': draw(st.integers(-4, 4)), 'target': draw(S.targets()),
            # what happens to the two before
            'pre': [draw(history()), draw(history())]}


@st.composite
def history(draw):
    one = st.one_of(st.tuples(st.just('add'), st.integers(-5, 5)), st.tuples(st.sampled_from(['flip', 'flip', 'canon'])))
    h = [list(x) for x in draw(st.lists(one, max_size=4))] if draw(st.booleans()) else []
    if sum(x[0] == 'flip' for x in h) % 2:
        h.append(['flip'])
    return h


def added(h):
    """The integer a history adds; its flips are of an even number."""
    n = 0
    for x in h:
        n = -n if x[0] == 'flip' else n + x[1] if x[0] == 'add' else n
    return n


def content(p, q):
    r = 0
    for x in list(p) + list(q):
        r = gcd(r, x)
    return r


def canonical(env, params, target, pre=()):
    out = env.ok('lhs_history', kind='rationalfunc', params=params, target=target,
                 steps=[[0] + s for s in pre] + [[0, 'canon'], [0, 'canon'], [0, 'degenerate']])
    return out[-3][1][0], out[-2][1][0], out[-1][0]


def check(c, env):
    p, q, n = c['p'], c['q'], c['n']
    t = Fr(c['target'])
    const = O.is_constant_ratio(p, q)
    # the reduced function of a constant ratio has a vanishing numerator (such are never sought)
    pre, pre2 = ([], []) if const else c['pre']
    once, twice, degenerate = canonical(env, [p, q, n], c['target'], pre)
    what = '%r/%r + %d%s' % (p, q, n, ' after %r' % pre if pre else '')
    n += added(pre)
    if degenerate != const:
        raise Violation('%s counts as %sdegenerate' % (what, '' if degenerate else 'not '))
    env.label('constant' if const else 'not constant')
    if const:
        env.nontrivial()
        return
    P, Q, N = once['params']
    if not O.same_function(*O.whole((P, Q, N)), *O.whole((p, q, n))):
        raise Violation('%s became %r/%r + %d, another function' % (what, P, Q, N))
    v = O.num(once['val'])
    w = O.lhs_value('rationalfunc', (p, q, n), t)
    if not c11.close(v, w, O.lhs_scale('rationalfunc', (P, Q, N), t) + O.lhs_scale('rationalfunc', (p, q, n), t)):
        raise Violation('%s is worth %s in canonical form instead of %s' % (what, v, O.mp_of(w)))
    if len(O.pgcd(P, Q)) > 1 or content(P, Q) != 1:
        raise Violation('%s became %r/%r, which have a common factor' % (what, P, Q))
    quo, _ = O.pdivmod(P, Q)
    c0 = quo[0] if quo else Fr(0)
    if not -1 < c0 <= 0:
        raise Violation('%s became %r/%r, whose quotient has the constant term %s' % (what, P, Q, c0))
    if twice['params'] != once['params']:
        raise Violation('%s became %r, and then %r' % (what, once['params'], twice['params']))
    # disguises
    g = [int(x) for x in O.ptrim(c['g'])]
    pg = [int(x) for x in O.pmul(g, O.padd(p, [c['m'] * x for x in q]))]
    qg = [int(x) for x in O.pmul(g, q)]
    if O.poly_at(pg, t) != 0 and O.poly_at(qg, t) != 0:
        other, _, _ = canonical(env, [pg, qg, n + c['k'] - added(pre2)], c['target'], pre2)
        P2, Q2, N2 = other['params']
        if (O.ptrim(P2), O.ptrim(Q2)) not in ((O.ptrim(P), O.ptrim(Q)),
                                              (O.ptrim([-x for x in P]), O.ptrim([-x for x in Q]))):
            raise Violation('%s became %r/%r, but times %r and with other integers %r/%r' % (what, P, Q, c['g'], P2, Q2))
        if N2 - N != c['m'] + c['k']:
            raise Violation('%s has the integer %d, plus %d has %d' % (what, N, c['m'] + c['k'], N2))
    env.nontrivial((O.ptrim(P), O.ptrim(Q), N) != (O.ptrim(p), O.ptrim(q), n))


PARTS = [Part('canonical', case(), check, 2000)]
