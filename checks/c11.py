from fractions import Fraction as Fr

from hypothesis import strategies as st

import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C11'
RULE = ('random left-hand sides of both kinds and histories of operations on them and their copies; non-trivial: at '
        'least 3 changing operations, or a copy and a change of one of the two')


@st.composite
def ulcd(draw):
    nz = st.integers(-9, 9).filter(bool)
    if draw(st.integers(0, 7)) == 0:
        nz = st.integers(-10 ** 12, 10 ** 12).filter(bool)
    return [draw(st.integers(-9, 9)), draw(nz), draw(st.integers(-9, 9)), draw(nz)]


@st.composite
def poly(draw, maxlen=4, lo=-6, hi=6):
    return draw(st.lists(st.integers(lo, hi), min_size=1, max_size=maxlen).filter(any))


@st.composite
def rational(draw):
    size = draw(st.sampled_from([4] * 7 + [9]))
    p, q = draw(poly(size)), draw(poly(size))
    if draw(st.integers(0, 7)) == 0:
        # large coefficients
        k = draw(st.integers(2, 10 ** draw(st.sampled_from([3, 9, 18, 25]))))
        p, q = [[x * k + draw(st.integers(-9, 9)) if x else 0 for x in r] for r in (p, q)]
        if not any(p) or not any(q):
            p, q = [k, 1], [1]
    if draw(st.integers(0, 3)) == 0:
        g = draw(poly(2, -3, 3))
        p, q = ([int(x) for x in O.pmul(g, r)] for r in (p, q))
    return [p, q, draw(st.sampled_from([0, 0, 1, -1, 5, -13]))]


def params(kind):
    return ulcd() if kind == 'ulcd' else rational()


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['ulcd', 'rationalfunc', 'rationalfunc']))
    idx = st.integers(0, 5)
    one = st.one_of(st.tuples(idx, st.sampled_from(['flip', 'copy', 'canon', 'degenerate', 'rebuild', 'target'])),
                    st.tuples(idx, st.sampled_from(['flip', 'flip', 'copy', 'canon'])),
                    st.tuples(idx, st.just('latex'), st.sampled_from(['x', r'\pi'])),
                    st.tuples(idx, st.just('add'), st.integers(-20, 20) | st.integers(-10 ** 20, 10 ** 20)),
                    st.tuples(idx, st.just('reinit'), params(kind)))
    return {'kind': kind, 'params': draw(params(kind)), 'target': draw(S.targets()),
            'steps': [list(s) for s in draw(st.lists(one, min_size=2, max_size=12))]}


def close(x, want, scale):
    return O.is_num(x) and abs(x - want) <= scale / Fr(10 ** 44)


def check(c, env):
    kind, t = c['kind'], Fr(c['target'])
    steps = []
    n = 1
    vals = [O.lhs_value(kind, c['params'], t)]
    now = [c['params']]
    # the reduced function of a constant ratio has a vanishing numerator (such are never sought)
    const = lambda p: kind != 'ulcd' and O.is_constant_ratio(p[0], p[1])
    for s in c['steps']:
        k = s[0] % n
        if s[1] in ('canon', 'degenerate', 'latex') and const(now[k]):
            continue
        if s[1] == 'copy':
            if n > 5:
                continue
            n += 1
            now.append(now[k])
        elif s[1] == 'reinit':
            now[k] = s[2]
        steps.append([k] + s[1:])
    out = env.ok('lhs_history', kind=kind, params=c['params'], target=c['target'], steps=steps)
    pool = out[0]
    exact = [vals[0]]
    changes = copies = 0

    def look(pool, where):
        for j, o in enumerate(pool):
            w = O.lhs_value(kind, o['params'], t)
            v = O.num(o['val'])
            if w is None:
                raise Violation('the parameters %r of number %d have no value %s' % (o['params'], j, where))
            sc = O.lhs_scale(kind, o['params'], t) + abs(exact[j])
            if not close(v, w, sc):
                raise Violation('number %d has the value %s, but its parameters %r are worth %s %s'
                                % (j, v if not O.is_num(v) else O.mp_of(v), o['params'], O.mp_of(w), where))
            if w != exact[j]:
                raise Violation('number %d is described by %r, worth %s, but has to be worth %s %s'
                                % (j, o['params'], O.mp_of(w), O.mp_of(exact[j]), where))
    where = 'at first'
    look(pool, where)
    for i, (s, (ret, after)) in enumerate(zip(steps, out[1:])):
        where = 'after %r (target %s, %s %r)' % (steps[:i + 1], c['target'], kind, c['params'])
        k = s[0]
        if s[1] == 'flip':
            exact[k] = -exact[k]
            changes += 1
        elif s[1] == 'add':
            exact[k] += s[2]
            changes += 1
        elif s[1] == 'reinit':
            exact[k] = O.lhs_value(kind, s[2], t)
            changes += 1
        elif s[1] == 'copy':
            exact.append(exact[k])
            copies += 1
        elif s[1] == 'rebuild':
            w = O.lhs_value(kind, pool[k]['params'], t)
            if not close(O.num(ret), w, O.lhs_scale(kind, pool[k]['params'], t)):
                raise Violation('rebuilt from the parameters it has another value %s' % where)
        elif s[1] == 'target':
            if abs(O.num(ret) - t) > t / 10 ** 49:
                raise Violation('the constant is %s %s' % (O.mp_of(O.num(ret)), where))
        look(after, where)
        for j in range(len(pool)):
            if j != k and pool[j] != after[j]:
                raise Violation('number %d changed from %r to %r by an operation on number %d %s'
                                % (j, pool[j], after[j], k, where))
        pool = after
        env.label(s[1])
    env.label(kind)
    env.nontrivial(changes >= 3 or (changes and copies))


PARTS = [Part('histories', case(), check, 2500)]
