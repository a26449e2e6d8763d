import ast
import re
from fractions import Fraction as Fr

import mpmath
from mpmath import mpf
from hypothesis import strategies as st

import c22
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C23'
RULE = ('random lists of results over both families of left-hand sides, interlaces, post-functions and convergence '
        'information, exported and read back by an independent csv reader; values against exact convergents; '
        'non-trivial: two or more results, an interlace among them, and both sides of one judged to 30 or more digits')


@st.composite
def fast_ab(draw):
    """Mostly quickly converging continued fractions without zero numerators."""
    k = draw(st.integers(0, 3))
    if k == 0:
        return [[draw(S.coeffs(3, -6, 6)) for _ in range(draw(st.integers(1, 3)))],
                [draw(c22.b_poly()) for _ in range(draw(st.integers(1, 2)))]]
    if k == 1:
        # some tenths of digits per iteration
        return [[[draw(st.integers(1, 4)), draw(st.sampled_from([1, 2]))]], [[0, draw(st.integers(1, 3)), 1]]]
    n = draw(st.sampled_from([1, 1, 2, 3]))
    return [[[draw(st.integers(2, 9)) * draw(st.sampled_from([1, -1])), draw(st.integers(0, 3))] for _ in range(n)],
            [[draw(st.integers(1, 5)) for _ in range(draw(st.integers(1, 2)))] for _ in range(n)]]


@st.composite
def result(draw):
    conv = [draw(st.sampled_from(['exp', 'super_exp', 'poly2sympoly', 'fast', 'mixed'])),
            [{'s': '%d.%s' % (draw(st.integers(0, 60)), draw(S.fractions(20)))}, {'s': draw(S.decimal_strings(0, 9, 18))}]]
    return {'ab': draw(fast_ab()), 'lhs': draw(c22.lhs()), 'pf': draw(st.integers(0, O.NPOST - 1)), 'conv': conv}


@st.composite
def case(draw):
    t = draw(st.sampled_from(c22.TARGETS + [[None, 'a "quoted", name', '']]))
    return {'target': t, 'value': draw(S.targets()) if t[0] is None else None,
            'results': draw(st.lists(result(), max_size=4)), 'dps': draw(st.sampled_from([50, 50, 30, 80])),
            'before': draw(st.sampled_from([None, 15, 30, 60]))}


@st.composite
def long_case(draw):
    c = draw(case())
    rs = draw(st.lists(result(), min_size=2, max_size=4))
    n, s = draw(st.integers(12, 70)), draw(st.integers(1, 9))
    c['results'] = [rs[(i * i + s * i) % len(rs)] for i in range(n)]
    return c


NUMBER = re.compile(r'-?\d+\.?\d*(?:e[+-]?\d+)?')


def check(c, env):
    spec, name, _ = c['target']
    dps = c['dps']
    with mpmath.workdps(200):
        t = mpf(c['value']) if spec is None else c22.VALUES[spec if isinstance(spec, str) else spec[0]]()
        tq = Fr(int(mpmath.floor(t * mpf(2) ** 600)), 2 ** 600)
        results = [r for r in c['results'] if O.lhs_value(*r['lhs'], tq) is not None]
        o = {'target': {'value': c['value']} if spec is None else spec, 'name': name, 'pfs': [0], 'hp': 5, 'iters': 5,
             'prec': dps}
        # exported at another precision before, of which nothing may be left
        pre = [['dps', c['before']], ['set', results], ['csv']] if c['before'] else []
        out = env.ok('mitm', steps=[['new', o]] + pre + [['dps', dps], ['set', results], ['csv'], ['get'], ['csv']], dps=dps)
        out = [out[0]] + out[1 + len(pre):]
        rows, kept = out[3]['rows'], out[4]
        what = repr(c)
        if out[5] != out[3]:
            raise Violation('exported again, it is another file: %s' % what)
        if not rows or rows[0] != ['target_name', name]:
            raise Violation('the file begins with %r: %s' % (rows[:1], what))
        if len(rows) != 2 + len(results):
            raise Violation('%d rows of %d results: %s' % (len(rows), len(results), what))
        deep = False
        for row, r, k in zip(rows[2:], results, kept):
            where = 'row %r of %r: %s' % (row, r, what)
            if len(row) != 9:
                raise Violation('%d columns: %s' % (len(row), where))
            try:
                pa, pb, pf, params = [ast.literal_eval(row[i]) for i in (0, 1, 2, 4)]
            except (ValueError, SyntaxError):
                raise Violation('unreadable: %s' % where)
            if [O.tuplify(pa), O.tuplify(pb)] != [O.tuplify(x) for x in r['ab']]:
                raise Violation('other polynomials: %s' % where)
            if pf != r['pf'] or row[3] != r['lhs'][0]:
                raise Violation('another post-function or type of left-hand side: %s' % where)
            if r['lhs'][0] == 'ulcd':
                same = O.tuplify(params) == O.tuplify(r['lhs'][1])
            else:
                try:
                    same = O.same_function(*O.whole(params), *O.whole(r['lhs'][1]))
                except (TypeError, ValueError):
                    same = False
            if not same:
                raise Violation('another left-hand side: %s' % where)
            if row[5] != r['conv'][0]:
                raise Violation('another type of convergence: %s' % where)
            nums = [mpf(x) for x in NUMBER.findall(row[6])]
            if len(nums) != 2 or any(abs(x - mpf(y['s'])) > abs(x) * mpf(10) ** (2 - min(dps, 15)) for x, y in
                                     zip(nums, r['conv'][1])):
                raise Violation('another rate of convergence: %s' % where)
            # values
            digits = []
            w = O.lhs_value(*r['lhs'], tq)
            sc = O.lhs_scale(*r['lhs'], tq)
            err = sc * Fr(10) ** (3 - dps)
            zero = False
            if r['lhs'][0] == 'rationalfunc':
                num = r['lhs'][1][0]
                zero = abs(O.poly_at(num, tq)) <= sum(abs(k) * abs(tq) ** i for i, k in enumerate(num)) * Fr(10) ** (3 - min(dps, 33))
            try:
                v = Fr(row[8])
            except ValueError:
                v = None
            if err < Fr(1, 10 ** 10) and not zero and (v is None or abs(v - w) > err + abs(w) * Fr(10) ** (1 - dps)):
                raise Violation('the left-hand side is worth %s: %s' % (mpmath.nstr(O.mp_of(w), 60), where))
            av, bv = O.ab_values(*r['ab'], 800)
            cv = O.convergents(av, bv)
            if not cv[400][1] or not cv[800][1]:
                continue
            x, y = Fr(*cv[400]), Fr(*cv[800])
            e = O.mp_of(4 * abs(x - y)) + abs(O.mp_of(x)) * mpf(10) ** (1 - dps)
            try:
                p, perr = O.post_value(r['pf'], O.mp_of(x), e, dps)
            except O.Bad:
                continue
            if p is None or not mpmath.isfinite(p):
                continue
            try:
                v = mpf(row[7])
            except ValueError:
                v = mpf('nan')
            if not abs(v - p) <= 4 * perr + abs(p) * mpf(10) ** (2 - dps):
                raise Violation('the right-hand side is worth %s: %s' % (mpmath.nstr(p, 60), where))
            if perr < abs(p) * mpf(10) ** -30 and err < abs(w) * Fr(1, 10 ** 27):
                deep = True
            env.label(r['lhs'][0], r['conv'][0])
        env.nontrivial(len(results) > 1 and deep and any(len(p) > 1 for r in results for p in r['ab']))


PARTS = [Part('exports', case(), check, 1000), Part('long', long_case(), check, 16)]
