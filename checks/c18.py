import mpmath
from mpmath import mpf
from hypothesis import strategies as st

import oracle as O
from pbt import Part, Violation

PROPERTY = 'C18'
RULE = ('random sequences of requests of all the constants with, without and between changes of the precision, against '
        'their definitions evaluated by mpmath (the Feigenbaum ones, which it doesn\'t know, against their published '
        'digits); non-trivial: three or more constants, requested at two or more precisions, one without a precision')
ASSUMPTIONS = ['the Feigenbaum constants are compared to their digits as published with the original tree; of these, '
               'only the first (the zero of the Feigenbaum function) was confirmed by an own computation, to 32 digits']

# as published
FEIG = ['0.832367236905316424849095446276104487378444151012251178801815537790651149061721299210574967325072848966217',
        '1.83125898493713148534217339787378162744129809037623796547741164647029628921518197466402695607431535931144',
        '2.8315090047407180144993675864514825103861092055443549309368086842363044614290970217463629831538000035030',
        '1.5546180470640874386344153591097097603679027104799317816179366813305881904302037128542124779889011575139']


# all the digits that are stored are right, by this many
STORED = {'pi': 149, 'e': 149, 'phi': 104, 'apery': 107, ('zeta', 3): 107, 'euler_masch': 99, 'percolation': 100,
          ('zeta', 6): 99, ('zeta', 11): 99, ('feig', 0): 102, ('feig', 1): 102, ('feig', 2): 102, ('feig', 3): 102}


def definition(name, i):
    if name == 'pi':
        return +mpmath.pi
    if name == 'e':
        return mpmath.exp(1)
    if name == 'euler_masch':
        return +mpmath.euler
    if name == 'phi':
        return (1 + mpmath.sqrt(5)) / 2
    if name == 'apery':
        return mpmath.zeta(3)
    if name == 'zeta':
        return mpmath.zeta(i)
    if name == 'percolation':
        # bond percolation thresholds of the honeycomb and the triangular lattice
        t = 2 * mpmath.sin(mpmath.pi / 18)
        return 1 - t if i == 0 else t
    return mpf(FEIG[i])


_memo = {}


def truth(name, i):
    if (name, i) not in _memo:
        with mpmath.workdps(200):
            _memo[name, i] = definition(name, i)
    return _memo[name, i]


ALL = ([[n, None] for n in ('pi', 'e', 'euler_masch', 'phi', 'apery')] + [['zeta', i] for i in range(2, 21)]
       + [['percolation', i] for i in range(2)] + [['feig', i] for i in range(4)])


@st.composite
def case(draw):
    prec = st.integers(5, 145) | st.sampled_from([50, 50, 100, 15])
    out = []
    for _ in range(draw(st.integers(1, 12))):
        if draw(st.integers(0, 5)) == 0:
            out.append(['dps', None, draw(prec), None])
            continue
        k = draw(st.integers(0, 9))
        name, i = draw(st.sampled_from(ALL[:5] if k < 3 else (ALL[-6:] if k < 6 else ALL)))
        how = draw(st.sampled_from(['none', 'kw', 'pos', 'pos']))
        p = None if how == 'none' or draw(st.integers(0, 7)) == 0 else draw(prec)
        out.append([name, i, p, how])
    return {'start': draw(prec), 'requests': out}


def check(c, env):
    out = env.ok('consts', **c)
    dps = c['start']
    seen = set()
    used = set()
    bare = False
    for (name, i, p, how), r in zip(c['requests'], out):
        if name == 'dps':
            dps = p
            continue
        (status, *v), got = r
        what = '%s %s, requested %s, in %r' % (name, '' if i is None else i, 'without a precision' if p is None
                                              else 'to %d digits' % p, c)
        if status != 'ok':
            raise Violation('%r raised by %s' % (v, what))
        if p is not None:
            dps = p
        else:
            bare = True
        if got != dps:
            raise Violation('the working precision is %d instead of %d digits after %s' % (got, dps, what))
        v = O.num(v[0])
        w = truth(name, i)
        stored = STORED.get((name, i), STORED.get(name, 98))
        with mpmath.workdps(200):
            if not O.is_num(v) or abs(O.mp_of(v) - w) > abs(w) * max(mpf(10) ** (1 - dps), mpf(10) ** -stored):
                raise Violation('%s instead of %s for %s' % (v if isinstance(v, str) else mpmath.nstr(O.mp_of(v), 150),
                                                            mpmath.nstr(w, 150), what))
        seen.add((name, i))
        used.add(dps)
        env.label(name)
    env.nontrivial(len(seen) > 2 and len(used) > 1 and bare)


PARTS = [Part('requests', case(), check, 1500, examples=[
    {'start': 50, 'requests': [[n, i, None, 'none'] for n, i in ALL]},
    {'start': 15, 'requests': [[n, i, 50, 'pos'] for n, i in ALL]}])]
