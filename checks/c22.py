import re
from fractions import Fraction as Fr

import mpmath
from mpmath import mpf
from hypothesis import strategies as st

import latexeval as L
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C22'
RULE = ('random results (both families of left-hand sides with zero, unit, negative and common factors, high powers and '
        'added integers; all post-functions; interlaces; constants; depths), the exported equations read back by an own '
        'parser and both sides evaluated, the dots replaced by random tails; non-trivial: two or more results, of '
        'different post-functions, one with a coefficient 0, 1 or -1')

TARGETS = [[None, 'x', 'x'], [None, 'lapin', 'lapin'], [None, 'phi_pi', 'phi_pi'], [None, 'y_0', 'y_0'], ['pi', 'pi', r'\pi'], ['e', 'e', 'e'], ['phi', 'phi', r'\varphi'],
           ['euler_masch', 'euler_masch', 'euler_masch'], [['zeta', 3], 'zeta', 'zeta'],
           [['feig', 1], 'feig, 1', 'feig, 1']]
VALUES = {'pi': lambda: +mpmath.pi, 'e': lambda: mpmath.exp(1), 'phi': lambda: (1 + mpmath.sqrt(5)) / 2,
          'euler_masch': lambda: +mpmath.euler, 'zeta': lambda: mpmath.zeta(3),
          'feig': lambda: mpf('1.83125898493713148534217339787378162744129809037623796547741164647029628921518197466402')}


@st.composite
def lhs(draw):
    if draw(st.booleans()):
        c = st.sampled_from([0, 1, -1, 2, -3, 10, 12])
        nz = st.sampled_from([1, -1, 2, -2, 7, 11])
        return ['ulcd', [draw(c), draw(nz), draw(c), draw(nz)]]
    k = st.sampled_from([0, 0, 1, -1, 2, -3, 12])
    while True:
        p = draw(st.lists(k, min_size=1, max_size=draw(st.sampled_from([2, 4, 4, 12]))))
        q = draw(st.lists(k, min_size=1, max_size=draw(st.sampled_from([1, 2, 4, 11]))))
        if any(p) and any(q):
            break
        p = [1, 1]
        q = [2]
        break
    if draw(st.integers(0, 2)) == 0:
        f = draw(st.sampled_from([[2], [-1], [1, 1], [-1, 0, 1], [0, 1]]))
        p, q = [int(x) for x in O.pmul(p, f)], [int(x) for x in O.pmul(q, f)]
    return ['rationalfunc', [p, q, draw(st.sampled_from([0, 0, 1, -1, 5, -12]))]]


@st.composite
def b_poly(draw):
    for _ in range(20):
        b = draw(S.coeffs(4, -6, 6))
        if any(b) and not [r for r in O.integer_roots(b) if r > 0]:
            return b
    return [1]


@st.composite
def result(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    m = draw(st.sampled_from([1, 1, 2, 3]))
    return {'ab': [[draw(S.coeffs(4, -6, 6)) for _ in range(n)], [draw(b_poly()) for _ in range(m)]],
            'lhs': draw(lhs()), 'pf': draw(st.integers(0, O.NPOST - 1)), 'conv': None}


@st.composite
def finite(draw):
    """One with a numerator 0."""
    r = draw(result())
    m = len(r['ab'][1])
    i = draw(st.integers(1, 12))
    f = [[-i, 1]] + [draw(S.coeffs(2, -3, 3)) for _ in range(draw(st.integers(0, 1)))]
    p = [1]
    for x in f:
        p = [int(v) for v in O.pmul(p, x)] if any(x) else p
    r['ab'][1][i % m] = p
    return r


@st.composite
def case(draw):
    t = draw(st.sampled_from(TARGETS))
    value = draw(S.targets()) if t[0] is None else None
    return {'target': t, 'value': value, 'results': draw(st.lists(result(), min_size=1, max_size=4)),
            'finite': draw(st.lists(st.tuples(st.integers(0, 4), finite()), max_size=draw(st.sampled_from([0, 0, 1, 2])))),
            'depth': draw(st.integers(1, 7)), 'before': draw(st.integers(1, 7)), 'dots': draw(st.lists(st.sampled_from([1, -1]), min_size=2, max_size=2)),
            'frac': draw(S.fractions())}


@st.composite
def long_case(draw):
    c = draw(case())
    rs = draw(st.lists(result(), min_size=2, max_size=5))
    n, s = draw(st.integers(12, 110)), draw(st.integers(1, 9))
    c['results'] = [rs[(i * i + s * i) % len(rs)] for i in range(n)]
    c['finite'] = [(k * 20, r) for k, r in c['finite']]
    c['depth'] = min(c['depth'], 4)
    return c


def check(c, env):
    spec, name, shown = c['target']
    target = {'value': c['value']} if spec is None else spec
    with mpmath.workdps(200):
        t = mpf(c['value']) if spec is None else VALUES[spec if isinstance(spec, str) else spec[0]]()
        tq = Fr(int(mpmath.floor(t * mpf(2) ** 600)), 2 ** 600)
        results = []
        for r in c['results']:
            # (an expression that isn't defined there, or doesn't depend on the constant, is no result)
            if O.degenerate(*r['lhs']) or O.lhs_value(r['lhs'][0], r['lhs'][1], tq) is None:
                continue
            if r['lhs'][0] == 'rationalfunc':
                sc = O.lhs_scale('rationalfunc', r['lhs'][1], tq)
                p = abs(O.poly_at(r['lhs'][1][0], tq))
                if sc > 10 ** 25 or p < Fr(1, 10 ** 20):
                    continue
            results.append(r)
        if not results:
            return
        o = {'target': target, 'name': name, 'pfs': [0], 'hp': 5, 'iters': 5}
        out = env.ok('mitm', steps=[['new', o], ['set', results], ['eqns', c['before']], ['eqns', c['depth']], ['get']])
        eqns, kept = out[3], out[4]
        what = repr(c)
        if c.get('finite'):
            # finite ones are left out, or refused
            more = list(results)
            for k, r in c['finite']:
                if not O.degenerate(*r['lhs']):
                    more.insert(k, r)
            if len(more) > len(results):
                out = env.ok('mitm', steps=[['new', o], ['set', more], ['eqns', c['depth']], ['get']])
                if out[2] != eqns:
                    raise Violation('with finite continued fractions: %r instead of %r: %s' % (out[2], eqns, what))
                how, r = env.call('mitm', steps=[['new', o], ['set', more], ['eqns', c['depth'], False]])
                if how != 'exc' or r['type'] != 'ZeroB':
                    raise Violation('finite continued fractions aren\'t refused: %s' % what)
                env.label('finite ones')
        if len(eqns) != len(results):
            raise Violation('%d equations of %d results: %r: %s' % (len(eqns), len(results), eqns, what))
        if [(O.tuplify(r['ab']), r['pf']) for r in results] != [(O.tuplify(k['ab']), k['pf']) for k in kept]:
            raise Violation('exporting changed the results: %s' % what)
        for eqn, r in zip(eqns, results):
            try:
                left, right = L.parse_equation(eqn, [shown, r'\dots'])
            except L.Unreadable as e:
                raise Violation('%s: of %r: %s' % (e, r, what))
            ln = L.names_in(left)
            if r'\dots' in ln or L.names_in(right) != {r'\dots'} or eqn.count(r'\dots') != 1:
                raise Violation('"%s" of %r: %s' % (eqn, r, what))
            kind, params = r['lhs']
            w = O.lhs_value(kind, params, tq)
            try:
                v = L.evaluate(left, {shown: t})
            except ZeroDivisionError:
                v = None
            tol = mpf(10) ** -60 * max(1, abs(O.mp_of(w)), O.mp_of(O.lhs_scale(kind, params, tq)))
            if v is None or abs(v - O.mp_of(w)) > tol:
                raise Violation('the left side of "%s" is worth %s instead of %s (%r at %s): %s'
                                % (eqn, v if v is None else mpmath.nstr(v, 30), mpmath.nstr(O.mp_of(w), 30), r['lhs'],
                                   mpmath.nstr(t, 30), what))
            # the right side
            a, b = r['ab']
            av, bv = O.ab_values(a, b, c['depth'] - 1)
            judged = 0
            for s, add in zip(c['dots'], ('0.3', '17.')):
                tail = s * mpf(add + c['frac'])
                x = av[-1] + tail
                for i in range(len(av) - 1, 0, -1):
                    x = av[i - 1] + bv[i] / x
                y = O.POST[r['pf']](x)
                if mpmath.isnan(y) or mpmath.isinf(y) or abs(x) > 10 ** 6 or abs(y) < mpf(10) ** -50 or abs(
                        y) > mpf(10) ** 50:
                    continue
                z = L.evaluate(right, {r'\dots': tail})
                if mpmath.isnan(z) or abs(z - y) > abs(y) * mpf(10) ** -60:
                    raise Violation('with the dots at %s, the right side of "%s" is worth %s instead of %s (%r): %s'
                                    % (mpmath.nstr(tail, 20), eqn, mpmath.nstr(z, 30), mpmath.nstr(y, 30), r, what))
                judged += 1
            env.label('pf %d' % r['pf'] if judged else 'right side not judged')
            env.label(kind, 'depth %d' % c['depth'])
        flat = str([r['lhs'] for r in results])
        env.nontrivial(len({r['pf'] for r in results}) > 1 and re.search(r'[ \[]-?[01],', flat))


@st.composite
def doc_case(draw):
    eqns = draw(st.lists(st.sampled_from([r'x = 1 + \frac{ 2 } { 3 + \dots}', r'\pi = 3 + \dots', r'-x^{12} = 5 + \dots',
                                          r'\frac{{ x }}{{ 2 }} + 3 = \sin\left( 1 + \dots \right)'])
                         | st.integers(0, 999).map(lambda n: r'%d x + \frac{ 1 }{ %d } = %d + \dots' % (n, n + 1, n)),
                         max_size=6))
    return {'eqns': eqns}


BLOCK = re.compile(r'\\begin\{(alignat\*|align\*|equation\*)\}(?:\{\d+\})?%?\s*(.*?)%?\s*\\end\{\1\}', re.S)


def doc_check(c, env):
    docs = env.ok('latex_doc', eqns=c['eqns'])
    if len(docs) != 1:
        raise Violation('%d documents' % len(docs))
    path, text = docs[0]
    if path != 'somewhere/results':
        raise Violation('the document is saved as %s' % path)
    got = [m.group(2).strip() for m in BLOCK.finditer(text)]
    if got != c['eqns']:
        raise Violation('the document has the equations %r instead of %r' % (got, c['eqns']))
    env.nontrivial(len(got) > 1)


_R = {'ab': [[[1, 2]], [[0, 0, 1]]], 'pf': 0, 'conv': None}
PARTS = [Part('equations', case(), check, 1800, examples=[
    {'target': TARGETS[4], 'value': None, 'depth': 5, 'before': 3, 'dots': [1, -1], 'frac': S.fraction_digits(3), 'results': [
        dict(_R, lhs=['rationalfunc', [[0] * 10 + [1], [1], 0]], pf=10), dict(_R, lhs=['ulcd', [0, -1, 0, -1]], pf=20),
        dict(_R, lhs=['rationalfunc', [[1, 1], [0, -1, 1], -1]], pf=22)]}]),
    Part('documents', doc_case(), doc_check, 300),
    Part('long', long_case(), check, 24),
    Part('long documents', st.integers(7, 130).map(
        lambda n: {'eqns': [r'%d x + \frac{ 1 }{ %d } = %d + \dots' % (i, i + 1, i) for i in range(n)]}), doc_check, 16)]
