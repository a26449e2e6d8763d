from fractions import Fraction as Fr

from hypothesis import strategies as st

import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C04'
RULE = ('random lists of numbers of every kind and random (interlaced) polynomials and depths; cases with a vanishing '
        'tail are not judged; non-trivial: depth at least 3 and not all the terms alike')


@st.composite
def number(draw, kind, zero=True):
    if kind == 'mixed':
        kind = draw(st.sampled_from(['int', 'mpf']))
    n = draw(st.integers(-12, 12))
    if n == 0 and not zero:
        n = 1
    if kind == 'int':
        return n
    if kind == 'fraction':
        return {'q': [n, draw(st.integers(1, 9))]}
    if kind == 'float':
        return {'f': repr(n / draw(st.sampled_from([1.0, 2.0, 3.0, 7.0])))}
    d = draw(st.integers(0, 10 ** 12))
    return {'s': '%d.%012d' % (n, d)}


@st.composite
def list_case(draw):
    kind = draw(st.sampled_from(['int', 'float', 'fraction', 'mpf', 'mpf', 'mixed']))
    n = draw(st.integers(1, 12) if draw(st.integers(0, 9)) else st.integers(13, 80))
    shape = draw(st.sampled_from(['std', 'std', 'equal', 'equal', 'nob']))
    a = [draw(number(kind)) for _ in range(n)]
    m = n - 1 if shape == 'std' else n
    b = None if shape == 'nob' else [draw(number(kind)) for _ in range(m)]
    return {'kind': kind, 'a': a, 'b': b, 'shape': shape}


def plain(x):
    if isinstance(x, dict):
        if 's' in x:
            return Fr(x['s'])
        return O.num(x)
    return Fr(x)


def digits(kind):
    """Of the arithmetic: integers are divided as floats."""
    if kind == 'mpf':
        return 49
    return 14


def judge(got, want, err, what):
    for g in got:
        if g[0] != 'ok':
            raise Violation('%s raised %s: %s' % (what, g[1], g[2]))
        x = O.num(g[1])
        if not O.is_num(x) or abs(O.mp_of(x) - want) > err * 10:
            raise Violation('%s = %s instead of %s (+-%s)' % (what, x if not O.is_num(x) else O.mp_of(x), want, err))
    if got[0] != got[1]:
        raise Violation('%s gives another value the second time' % what)


def list_check(c, env):
    a = [plain(x) for x in c['a']]
    shape = c['shape']
    if shape == 'nob':
        b = [Fr(1)] * (len(a) - 1)
    else:
        b = [plain(x) for x in c['b']]
    d = digits(c['kind'])
    if shape == 'equal':
        a = [Fr(0)] + a
    env.label(c['kind'], shape)
    try:
        if shape == 'equal' and a[-1] == 0:
            raise O.Bad('')
        if c['kind'] == 'fraction':
            want, err = O.mp_of(O.list_exact(a, [None] + b)), 0
        else:
            want, err = O.list_value([O.mp_of(x) for x in a], [None] + [O.mp_of(x) for x in b], d)
    except O.Bad:
        env.label('not judged')
        return
    err += abs(want) * O.mpf(10) ** -100 + O.mpf(10) ** -110
    got = env.ok('cf_eval', how='lists_nob' if shape == 'nob' else 'lists', a=c['a'], b=c['b'])
    judge(got, want, err, 'eval_contfrac(%r, %r)' % (c['a'], c['b']))
    env.nontrivial(len(a) >= 3 and len(set(a)) > 1)


@st.composite
def poly_case(draw):
    a, b = draw(S.cf_polys(maxlen=3, lo=-6, hi=6)), draw(S.cf_polys(maxlen=4, lo=-6, hi=6))
    if len(a) == 1 and draw(st.booleans()):
        a = a[0]
    if len(b) == 1 and draw(st.booleans()):
        b = b[0]
    return {'a': a, 'b': b, 'depth': draw(st.sampled_from([1, 2, 3, 4, 5, 7, 12, 30, 80, 1, 2, 3, 4, 5, 7, 12, 30, 80, 300, 700])),
            'dps': draw(st.sampled_from([20, 50, 50, 90]))}


def as_mpf(p):
    return [as_mpf(x) if isinstance(x, list) else {'s': str(x)} for x in p]


def poly_check(c, env):
    dps = c['dps']
    try:
        want, err = O.cf_value(c['a'], c['b'], c['depth'], dps - 1)
        _, ferr = O.cf_value(c['a'], c['b'], c['depth'], 14)
    except O.Bad:
        env.label('not judged')
        return
    what = 'of %r, %r at depth %d' % (c['a'], c['b'], c['depth'])
    ev = lambda how, a, b: env.ok('cf_eval', how=how, a=a, b=b, depth=c['depth'], dps=dps)
    judge(ev('dec_polys', c['a'], c['b']), want, err, 'eval_dec_contfrac_by_polys ' + what)
    judge(ev('polys', c['a'], c['b']), want, ferr, 'eval_contfrac_by_polys ' + what)
    judge(ev('polys', as_mpf(c['a']), as_mpf(c['b'])), want, err, 'eval_contfrac_by_polys (mpf) ' + what)
    judge(ev('object', c['a'], c['b']), want, err, 'the ContFrac result ' + what)
    env.label('interlaced' if len(O.nest(c['a'])) + len(O.nest(c['b'])) > 2 else 'single')
    env.nontrivial(c['depth'] >= 3 and want != 0)


@st.composite
def rebuild_case(draw):
    return {'a': draw(S.cf_polys(maxlen=3, lo=-6, hi=6)), 'b': draw(S.cf_polys(maxlen=3, lo=-6, hi=6)),
            'pf': draw(st.integers(0, O.NPOST - 1)), 'n': draw(st.integers(0, 40) if draw(st.integers(0, 9)) else st.integers(41, 400))}


def rebuild_check(c, env):
    _, bv = O.ab_values(c['a'], c['b'], c['n'])
    try:
        if 0 in bv[1:]:
            raise O.Bad('')
        want, err = O.cf_value(c['a'], c['b'], c['n'] + 1, 49)
        y, yerr = O.post_value(c['pf'], want, err, 49)
    except O.Bad:
        env.label('not judged')
        return
    r = env.ok('mitm', steps=[['new', {'target': {'value': '1.23456789'}, 'pfs': [0], 'hp': 5, 'iters': 10}],
                              ['set', [{'ab': [c['a'], c['b']], 'lhs': ['ulcd', [1, 2, 0, 3]], 'pf': c['pf'],
                                        'conv': None}]],
                              ['rebuild', c['n']]])
    (cf, val, lhs), = r[2]
    judge([['ok', cf]] * 2, want, err, 'the rebuilt continued fraction of %r' % (c,))
    if y is None:
        if O.num(val) != 'nan':
            raise Violation('post-function %d of %s should be undefined, but is %s' % (c['pf'], want, val))
    else:
        judge([['ok', val]] * 2, y, yerr, 'the rebuilt right-hand side of %r' % (c,))
    env.nontrivial(c['n'] >= 3)


PARTS = [Part('lists', list_case(), list_check, 2500,
              examples=[{'kind': 'mpf', 'a': [{'s': '2'}, {'s': '3'}], 'b': [{'s': '5'}, {'s': '7'}], 'shape': 'equal'}]),
         Part('polys', poly_case(), poly_check, 900),
         Part('rebuilt', rebuild_case(), rebuild_check, 900)]
