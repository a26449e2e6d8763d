from fractions import Fraction as Fr

from hypothesis import strategies as st

import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C03'
RULE = ('random histories on 1-3 continued fraction objects; non-trivial: some object executes at least 3 iterations in '
        'at least 2 chunks, or is reinitialized and generated again')
NVALS = 90


@st.composite
def obj(draw, index):
    o = {'a': draw(S.cf_polys(maxlen=3, lo=-6, hi=6)), 'b': draw(S.cf_polys(maxlen=4, lo=-6, hi=6)),
         'avoid': draw(st.booleans()), 'logging': draw(st.booleans()), 'first': None, 'values': None, 'target': None,
         'share': None, 'print': draw(st.integers(0, 7)) == 0}
    if len(o['a']) == 1 and draw(st.booleans()):
        o['a'] = o['a'][0]
    if len(o['b']) == 1 and draw(st.booleans()):
        o['b'] = o['b'][0]
    if draw(st.integers(0, 7)) == 0:
        m = [draw(st.integers(-5, 5)) for _ in range(4)]
        o['first'] = [m[:2], m[2:]]
    if draw(st.integers(0, 7)) == 0:
        seed = draw(st.lists(st.integers(-5, 5), min_size=2, max_size=12))
        seed2 = draw(st.lists(st.integers(-5, 5), min_size=2, max_size=12))
        o['values'] = [[seed[i % len(seed)] for i in range(NVALS)], [seed2[i % len(seed2)] for i in range(NVALS)]]
    if draw(st.booleans()):
        o['target'] = draw(S.decimal_strings(0, 4, 40) | S.decimal_strings(0, 4, 40) | st.just('0'))
    if index and draw(st.integers(0, 3)) == 0:
        o['share'] = draw(st.integers(0, index - 1))
    return o


@st.composite
def step(draw, n):
    k = draw(st.integers(0, n - 1))
    if draw(st.integers(0, 30)) == 0:
        # long ones, too
        return [k, draw(st.sampled_from(['gen', 'add', 'add_nofin'])), draw(st.integers(50, 700))]
    m = draw(st.sampled_from(['gen', 'gen', 'add', 'add', 'add', 'add_nofin', 'gen_nofin', 'reinit', 'reinit', 'result',
                              'result', 'pq', 'pq', 'compare', 'valid', 'count', 'dps', 'fast']))
    if m in ('gen', 'gen_nofin'):
        return [k, m, draw(st.sampled_from([0, 1, 2, 3, 5, 8, 20]))]
    if m in ('add', 'add_nofin'):
        return [k, m, draw(st.sampled_from([0, 1, 1, 2, 3, 7, 15]))]
    if m == 'reinit':
        return [k, m, draw(st.none() | S.cf_polys(maxlen=3, lo=-6, hi=6)),
                draw(st.none() | S.cf_polys(maxlen=4, lo=-6, hi=6))]
    if m == 'compare':
        return [k, m, draw(st.none() | S.decimal_strings(0, 4, 40) | st.just('0') | S.decimal_strings(-4, 0, 40)),
                draw(st.sampled_from([None, True, False]))]
    if m == 'dps':
        return [k, m, draw(st.sampled_from([15, 30, 50, 80]))]
    return [k, m]


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    objs = [draw(obj(i)) for i in range(n)]
    steps = draw(st.lists(step(n), min_size=2, max_size=16))
    # some chance of observing whatever was done last
    for k in range(n):
        steps += [[k, 'gen', draw(st.integers(0, 6))]] if draw(st.booleans()) else []
        steps += [[k, 'pq'], [k, 'result'], [k, 'count']]
    return {'objs': objs, 'steps': steps}


class Model:
    def __init__(self, o, objs):
        src = objs[o['share']] if o['share'] is not None else o
        while src.get('share') is not None:
            src = objs[src['share']]
        self.a, self.b = O.nest(src['a']), O.nest(src['b'])
        self.o = o
        self.ready = False
        self.final = False

    def ab(self, i):
        if self.o['values']:
            return self.o['values'][0][i], self.o['values'][1][i]
        return O.poly_at(self.a[i % len(self.a)], i), O.poly_at(self.b[i % len(self.b)], i)

    def reset(self):
        if self.o['first']:
            (self.p, self.p1), (self.q, self.q1) = self.o['first']
        else:
            (self.p, self.p1), (self.q, self.q1) = (self.a[0][0], 1), (1, 0)
        self.n = 0
        self.chunks = 0
        self.ready = True
        self.final = False

    def add(self, k, fin, dps):
        """False if a zero numerator has to be reported."""
        for i in range(self.n + 1, self.n + k + 1):
            a, b = self.ab(i)
            if b == 0 and self.o['avoid'] and not self.o['values']:
                self.ready = False
                return False
            self.p, self.p1 = a * self.p + b * self.p1, self.p
            self.q, self.q1 = a * self.q + b * self.q1, self.q
        self.n += k
        self.chunks += k > 0
        if fin:
            self.final, self.dps = True, dps
        elif k and not self.o['logging']:
            self.final = False
        elif k:
            self.final, self.dps = True, dps
        return True

    def result(self):
        return None if self.q == 0 else Fr(self.p, self.q)


def check(c, env):
    objs = c['objs']
    models = [Model(o, objs) for o in objs]
    dps = 50
    sent, expect = [], []
    interesting = False
    for s in c['steps']:
        m, what = models[s[0]], s[1]
        e = None
        if what in ('gen', 'gen_nofin'):
            if m.o['values'] and s[2] > NVALS - 1:
                continue
            again = m.ready is None
            m.reset()
            e = ('done', m.add(s[2], what == 'gen', dps))
            interesting |= again and s[2] > 0
            if not m.ready:
                env.label('zero numerator')
        elif what in ('add', 'add_nofin'):
            if not m.ready or m.n + s[2] > (NVALS - 1 if m.o['values'] else 1500):
                continue
            e = ('done', m.add(s[2], what == 'add', dps))
            interesting |= m.chunks >= 2 and m.n >= 3
            if not m.ready:
                env.label('zero numerator')
        elif what == 'reinit':
            if m.o['first'] is None and (s[2] or s[3]):
                env.label('reinitialized')
            if s[2]:
                m.a = s[2]
            if s[3]:
                m.b = s[3]
            m.ready, m.final = None, False
            e = ('done', True)
        elif what == 'dps':
            dps = s[2]
            e = ('done', True)
        elif what == 'fast':
            if m.o['values'] or (O.degree(m.a[0]) > 1) or len(m.b) > 1:
                continue
            bad = m.o['avoid'] and any(m.ab(i)[1] == 0 for i in range(1, 600))
            if bad:
                continue        # how far it goes depends on the values
            m.ready, m.final = None, False
            e = ('done', True)
            env.label('convergence tested in between')
        elif not m.ready:
            continue
        elif what == 'pq':
            e = ('pq', m.p, m.q)
        elif what == 'count':
            e = ('count', m.n)
        elif not m.final:
            continue
        elif what == 'result':
            e = ('result', m.result(), min(m.dps, dps))
        elif what == 'valid':
            r = m.result()
            e = ('valid', r is not None and r != 0)
        elif what == 'compare':
            t = m.o['target'] if s[2] is None else s[2]
            if t is None:
                continue
            e = ('compare', m.result(), Fr(t), s[3] is None or s[3],
                 min(m.dps, min(dps, 50) if s[2] is None else dps))
        sent.append(s)
        expect.append(e)
    got = env.ok('cf_history', objs=objs, steps=sent)
    for i, (s, e, g) in enumerate(zip(sent, expect, got)):
        where = 'step %d %r after %r of %r' % (i, s, sent[:i], objs)
        if e == ('done', False):
            if g[0] != 'exc' or g[1] != 'ZeroB':
                raise Violation('a zero numerator lies among the executed iterations, but %r was the outcome of %s'
                                % (g, where))
            continue
        if g[0] != 'ok':
            raise Violation('%r raised by %s' % (g, where))
        v = g[1]
        if e[0] == 'pq':
            p, q = O.num(v[0]), O.num(v[1])
            if (e[1], e[2]) == (0, 0):
                continue
            if not (O.is_num(p) and O.is_num(q)) or p * e[2] != q * e[1] or (p, q) == (0, 0):
                raise Violation('p/q = %s/%s instead of %s/%s at %s' % (p, q, e[1], e[2], where))
        elif e[0] in ('count', 'valid'):
            if v != e[1]:
                raise Violation('%s is %r instead of %r at %s' % (e[0], v, e[1], where))
        elif e[0] == 'result':
            x = O.num(v)
            if e[1] is None:
                if x != 'nan':
                    raise Violation('the denominator vanishes, but the result is %s at %s' % (x, where))
            elif not O.is_num(x) or abs(x - e[1]) > abs(e[1]) * Fr(1, 10 ** (e[2] - 2)):
                raise Violation('the result is %s instead of %s at %s'
                                % (x if not O.is_num(x) else O.mp_of(x), O.mp_of(e[1]), where))
        elif e[0] == 'compare':
            x = O.num(v)
            if e[1] is None:
                if x != 'nan':
                    raise Violation('the denominator vanishes, but the comparison gave %s at %s' % (x, where))
                continue
            d = e[1] - e[2]
            if e[3]:
                d = abs(d)
            if not O.is_num(x) or abs(x - d) > (abs(e[1]) + abs(e[2])) * Fr(1, 10 ** (e[4] - 3)):
                raise Violation('the comparison gave %s instead of %s at %s'
                                % (x if not O.is_num(x) else O.mp_of(x), O.mp_of(d), where))
    if len(objs) > 1:
        env.label('several objects')
    for m in models:
        env.label('logging' if m.o['logging'] else 'no logging')
        if m.ready and m.q == 0:
            env.label('zero denominator')
        if m.o['values']:
            env.label('own generator')
        if m.o['first']:
            env.label('own first matrix')
    env.nontrivial(interesting)


_O = {'a': [[1, 2]], 'b': [[0, 0, 1]], 'avoid': True, 'logging': True, 'first': None, 'values': None, 'target': '3.1',
      'share': None, 'print': False}
PARTS = [Part('histories', case(), check, 3000, examples=[
    {'objs': [_O], 'steps': [[0, 'gen', 0], [0, 'result'], [0, 'compare', None, None], [0, 'valid']]},
    {'objs': [dict(_O, logging=False)], 'steps': [[0, 'gen', 5], [0, 'pq'], [0, 'add', 3], [0, 'valid'], [0, 'pq']]}])]
