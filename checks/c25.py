import mpmath
from mpmath import mpf
from hypothesis import strategies as st

import latexeval as L
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C25'
RULE = ('random arguments (of both signs, tiny, huge, at and near the zeros and poles of the functions) at random '
        'working precisions, every function at each of them; non-trivial: one of positive and one of negative sign, and '
        'one at which some function is infinite or undefined')

SPECIAL = ['0', '1', '-1', '0.5', '2', '-3', '4', '10', 'nan']


@st.composite
def case(draw):
    xs = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 6))
        sign = draw(st.sampled_from(['', '-']))
        if k == 0:
            xs.append(draw(st.sampled_from(SPECIAL)))
        elif k == 1:
            xs.append(sign + '0.' + '0' * draw(st.integers(0, 30)) + draw(S.fractions()))
        elif k == 2:
            xs.append(sign + str(draw(st.integers(5, 2000))) + '.' + draw(S.fractions()))
        elif k == 3:
            # about a multiple of pi/2
            with mpmath.workdps(100):
                xs.append(mpmath.nstr(mpmath.pi / 2 * draw(st.integers(-6, 6)), draw(st.integers(3, 50))))
        elif k == 4:
            xs.append(sign + '1.' + '0' * draw(st.integers(0, 20)) + draw(S.fractions()))
        elif k == 5:
            xs.append(sign + str(draw(st.integers(2000, 10 ** 5))) + '.' + draw(S.fractions()))
        else:
            xs.append(sign + draw(S.decimal_strings(0, 4)))
    return {'xs': xs, 'dps': draw(st.sampled_from([15, 30, 50, 50, 80, 150]))}


def check(c, env):
    r = env.ok('postfuncs', xs=c['xs'], dps=c['dps'])
    n = O.NPOST
    if len(r['values']) < n or len(r['texts']) != len(r['values']):
        raise Violation('%d functions, %d texts' % (len(r['values']), len(r['texts'])))
    if r['dps'] != c['dps']:
        raise Violation('the working precision changed')
    args = [O.num(x) for x in r['args']]
    special = False
    with mpmath.workdps(3 * c['dps'] + 120):
        tol = mpf(10) ** (3 - c['dps'])
        for k in range(n):
            for x, (how, *y) in zip(args, r['values'][k]):
                what = 'post-function %d (%s) at %s' % (k, O.POST_NAMES[k // 2] + ('' if k % 2 == 0 else ', inverted'),
                                                        x if x == 'nan' else mpmath.nstr(O.mp_of(x), 60))
                if how != 'ok':
                    raise Violation('%s raised %r' % (what, y))
                y = y[0]
                if not isinstance(y, int) and not (isinstance(y, dict) and 'm' in y):
                    raise Violation('%s is %r' % (what, y))
                y = O.num(y)
                if x == 'nan':
                    if y != 'nan':
                        raise Violation('%s is %s' % (what, y))
                    continue
                w = O.POST[k](O.mp_of(x))
                if mpmath.isnan(w):
                    special = True
                    if y != 'nan':
                        raise Violation('%s is %s instead of not a number' % (what, y))
                elif mpmath.isinf(w):
                    special = True
                    if y != ('inf' if w > 0 else '-inf') and y != 'inf':
                        raise Violation('%s is %s instead of infinity' % (what, y))
                elif not O.is_num(y):
                    raise Violation('%s is %s' % (what, y))
                elif abs(O.mp_of(y) - w) > tol * abs(w):
                    raise Violation('%s is %s instead of %s' % (what, mpmath.nstr(O.mp_of(y), 60), mpmath.nstr(w, 60)))
        # pairs
        pairs = {tuple(p) for p in r['pairs']}
        for k in range(n):
            if (k, k ^ 1) not in pairs:
                raise Violation('function %d is not paired with its reciprocal' % k)
        for i, j in pairs:
            if i < n and j < n and i ^ 1 != j:
                raise Violation('functions %d and %d are paired' % (i, j))
        # notation
        for k in range(n):
            left, right = r['latex'][k]
            try:
                l, rr = L.parse(left, ['X', 'Y']), L.parse(right, ['X', 'Y'])
            except L.Unreadable as e:
                raise Violation('the notation of function %d is unreadable: %s' % (k, e))
            if L.names_in(l) | L.names_in(rr) != {'X', 'Y'}:
                raise Violation('the notation %s = %s of function %d' % (left, right, k))
            for x in args:
                if x == 'nan':
                    continue
                x = O.mp_of(x)
                w = O.POST[k](x)
                if mpmath.isnan(w) or mpmath.isinf(w) or w == 0 or abs(x) > 300 or abs(w) < mpf(10) ** -40:
                    continue
                try:
                    same = [L.evaluate(s, {'X': x, 'Y': w}) for s in (l, rr)]
                    off = [L.evaluate(s, {'X': x, 'Y': w * mpf('1.7')}) for s in (l, rr)]
                except ZeroDivisionError:
                    continue
                if abs(same[0] - same[1]) > tol * abs(same[0]) or abs(off[0] - off[1]) < tol * abs(off[0]):
                    raise Violation('the notation "%s = %s" is not that of function %d (%s)'
                                    % (left, right, k, O.POST_NAMES[k // 2]))
    nums = [x for x in args if x != 'nan']
    env.label('dps %d' % c['dps'])
    env.nontrivial(special and any(x > 0 for x in nums) and any(x < 0 for x in nums))


PARTS = [Part('values', case(), check, 1200, examples=[{'xs': SPECIAL, 'dps': 50}])]
