import math
import re
from fractions import Fraction as Fr

from hypothesis import strategies as st

import oracle as O
from pbt import Part, Violation

PROPERTY = 'C26'
RULE = ('random integers of all sizes and signs (as int, mpf, Fraction and Decimal), polynomials, sequences and clocks '
        '(also ones that stand still or go backwards); non-trivial: a common divisor above 1 of two different numbers, '
        'a polynomial of two or more terms off zero, a sequence that isn\'t empty or a whole number of groups, a clock '
        'measured at least twice')


# ---- gcd
big = st.integers(-10 ** 14, 10 ** 14) | st.integers(-60, 60)


@st.composite
def gcd_case(draw):
    pairs = []
    for _ in range(draw(st.integers(1, 6))):
        a, b, g = draw(big), draw(big), draw(st.integers(1, 10 ** 6))
        pairs.append([a * g, b * g])
    return {'kind': draw(st.sampled_from(['int', 'mpf', 'fraction', 'decimal'])), 'pairs': pairs}


def gcd_check(c, env):
    out = env.ok('gcds', **c)
    for (a, b), r in zip(c['pairs'], out):
        w = math.gcd(a, b)
        if r[0] != 'ok' or abs(r[1]) != w or not r[2]:
            raise Violation('gcd(%d, %d) of %s is %r' % (a, b, c['kind'], r))
        env.nontrivial(w > 1 and abs(a) != abs(b) and a and b)
        env.label('a<b' if a < b else 'a>=b', 'signs %d %d' % (a < 0, b < 0))


# ---- polynomials
@st.composite
def number(draw):
    k = draw(st.sampled_from(['int', 'int', 'q', 's']))
    if k == 'int':
        return draw(st.integers(-50, 50) | st.integers(-10 ** 30, 10 ** 30))
    if k == 'q':
        return {'q': [draw(st.integers(-999, 999)), draw(st.integers(1, 99))]}
    # few enough bits for everything to be exact at 200 digits
    return {'s': str(Fr(draw(st.integers(-4000, 4000)), 2 ** draw(st.integers(0, 6))).__float__())}


@st.composite
def long_list(draw):
    n = draw(st.integers(7, 40))
    f = draw(st.lists(st.integers(-99, 99), min_size=1, max_size=9))
    return [f[i % len(f)] for i in range(n)]


@st.composite
def subs_case(draw):
    return {'cases': draw(st.lists(st.tuples(st.lists(st.integers(-99, 99) | number(), max_size=6) | long_list(), number()),
                                   min_size=1, max_size=4))}


def value(x):
    if isinstance(x, dict) and 's' in x:
        return Fr(x['s'])
    return O.num(x)


def kind(x):
    return 's' if isinstance(x, dict) and 's' in x else ('q' if isinstance(x, dict) else 'int')


def subs_check(c, env):
    cases = []
    for coeffs, x in c['cases']:
        # Fractions and mpf don't mix
        kinds = {kind(y) for y in list(coeffs) + [x]}
        if kinds >= {'s', 'q'}:
            coeffs = [y for y in coeffs if kind(y) != 'q']
            if kind(x) == 'q':
                x = 3
        cases.append([coeffs, x])
    out = env.ok('subs', cases=cases, dps=400)
    for (coeffs, x), r in zip(cases, out):
        w = sum((value(k) * value(x) ** i for i, k in enumerate(coeffs)), Fr(0))
        if r[0] != 'ok' or not isinstance(r[1], (int, dict)) or 'other' in str(r[1]) or O.num(r[1]) != w:
            raise Violation('%r at %r is %r instead of %s' % (coeffs, x, r, w))
        env.nontrivial(sum(1 for k in coeffs if value(k)) > 1 and value(x))


# ---- grouping
@st.composite
def group_case(draw):
    return {'how': draw(st.sampled_from(['list', 'tuple', 'iter', 'gen'])),
            'seq': draw(st.lists(st.integers(0, 9) | st.none() | st.text('ab', max_size=2), max_size=30)),
            'n': draw(st.integers(1, 7)), 'fill': draw(st.sampled_from(['unset', None, 0, 'x']))}


def group_check(c, env):
    out = env.ok('group', **c)
    fill = None if c['fill'] == 'unset' else c['fill']
    seq, n = list(c['seq']), c['n']
    padded = seq + [fill] * (-len(seq) % n)
    want = [padded[i:i + n] for i in range(0, len(padded), n)]
    if out != want:
        raise Violation('%r grouped is %r' % (c, out))
    env.nontrivial(len(seq) % n and len(seq) > n)


# ---- progress
clock = st.lists(st.integers(-4000, 4000).map(lambda n: n / 64) | st.sampled_from([0, 0.5, 3600 * 30.0]), min_size=1,
                 max_size=5)
# also around whole minutes, hours and days
forward = st.lists(st.integers(0, 4000).map(lambda n: n / 64) | st.builds(
    lambda unit, k, more: max(0, unit * k + more), st.sampled_from([60, 3600, 86400]), st.integers(1, 30),
    st.sampled_from([0, 0, 1, -1, 59, 60, 61, 3599, 3600, 3601, 86399])), min_size=1, max_size=5)
CLOCK = r'(-?\d+):(\d+):(\d+):(\d+)'
SHOWN = re.compile(r'\s*(\d+)%%\s*\|\s*Estimated time left: (?:%s|--:--:--:--)\s*\|\s*Time passed: (?:%s|--:--:--:--)' % (CLOCK, CLOCK))


@st.composite
def progress_case(draw):
    seq = draw(st.lists(st.integers(0, 9) | st.none() | st.text('ab', max_size=2), max_size=20))
    how = draw(st.sampled_from(['list', 'tuple', 'iter', 'gen']))
    kw = {}
    if how in ('iter', 'gen'):
        kw['est_len'] = draw(st.just(max(1, len(seq))) | st.integers(1, 40))
    elif draw(st.booleans()):
        kw['est_len'] = draw(st.integers(1, 40))
    if draw(st.booleans()):
        kw['enumerate'] = draw(st.booleans())
    if draw(st.booleans()):
        kw['update_freq'] = draw(st.sampled_from([0, 0.5, 1, 100]))
    if how in ('iter', 'gen') and draw(st.integers(0, 9)) == 0:
        kw.pop('est_len')
    return {'how': how, 'seq': seq, 'kw': kw, 'clock': draw(clock | forward)}


def progress_check(c, env):
    r, shown = env.ok('progress', **c)
    if c['how'] in ('iter', 'gen') and 'est_len' not in c['kw']:
        if r[:2] != ['exc', 'ValueError']:
            raise Violation('something of unknown length was not refused: %r' % r)
        env.label('unknown length')
        return
    if r[0] != 'ok':
        raise Violation('%r raised %r' % (c, r))
    want = [[i, x] for i, x in enumerate(c['seq'])] if c['kw'].get('enumerate') else list(c['seq'])
    if r[1] != want:
        raise Violation('%r yields %r' % (c, r[1]))
    check_shown(c, shown, len(want), env)
    env.nontrivial(len(want) > 1)
    env.label('empty' if not want else 'some', 'est. %s' % ('none' if 'est_len' not in c['kw'] else (
        'short' if c['kw']['est_len'] < len(want) else 'enough')))


def check_shown(c, shown, n, env):
    """What is displayed of the time, where the clock runs as clocks do."""
    steps = [c['clock'][k % len(c['clock'])] for k in range(n)]
    if min(steps, default=0) < 0:
        return
    lines = [l for l in shown.split('\r') if l.strip()]
    if not lines:
        raise Violation('%r: nothing is displayed' % (c,))
    enough = c['kw'].get('est_len', n) >= n
    last = -1
    for l in lines:
        m = SHOWN.fullmatch(l.rstrip())
        if not m:
            raise Violation('%r displays %r' % (c, l))
        percent = int(m.group(1))
        if enough and not last <= percent <= 100:
            raise Violation('%r: %d%% is displayed after %d%%' % (c, percent, last))
        last = percent
        for at in (2, 6):
            if m.group(at) is not None and (at == 6 or enough):
                days, hours, mins, secs = (int(m.group(at + j)) for j in range(4))
                if hours > 23 or mins > 59 or secs > 59:
                    raise Violation('%r displays %r' % (c, l))
    total = sum(steps)
    got = [int(x) for x in m.groups()[5:]]
    got = ((got[0] * 24 + got[1]) * 60 + got[2]) * 60 + got[3]
    if last != 100 or abs(got - total) > 1:
        raise Violation('%r: %r is displayed at the end, after %s seconds' % (c, l, total))
    env.label('days' if total >= 86400 else 'hours' if total >= 3600 else 'shorter')


# ---- measuring
@st.composite
def stopwatch_case(draw):
    step = st.one_of(st.tuples(st.just('wait'), st.integers(-1000, 5000).map(lambda n: n / 64)), st.just(('measure',)),
                     st.just(('total',)), st.just(('last',)), st.just(('start',)), st.just(('started',)))
    return {'start': draw(st.integers(0, 10 ** 9)) * 1.0,
            'steps': [['started'], ['start']] + [list(s) for s in draw(st.lists(step, min_size=1, max_size=30))]}


def stopwatch_check(c, env):
    out = env.ok('stopwatch', **c)
    now = c['start']
    started = None
    last_at = None
    last = None
    n = 0
    for st_, r in zip(c['steps'], out):
        k = st_[0]
        if k == 'wait':
            now += st_[1]
            continue
        if r[0] != 'ok':
            raise Violation('%s raised %r in %r' % (k, r, c))
        v = r[1]
        if k == 'start':
            if started is None:
                started = last_at = now
            continue
        if k == 'started':
            want = started is not None
        elif k == 'total':
            want = now - started
        elif k == 'measure':
            want = last = now - last_at
            last_at = now
            n += 1
        else:
            if last is None:
                continue
            want = last
        if v != want:
            raise Violation('%s gives %r instead of %r in %r' % (k, v, want, c))
    env.nontrivial(n > 1)


PARTS = [Part('gcd', gcd_case(), gcd_check, 1500),
         Part('substitution', subs_case(), subs_check, 1500),
         Part('grouping', group_case(), group_check, 1500),
         Part('progress', progress_case(), progress_check, 1500, examples=[
             {'how': 'list', 'seq': [], 'kw': {}, 'clock': [1]}, {'how': 'iter', 'seq': [1], 'kw': {}, 'clock': [1]}]),
         Part('stopwatch', stopwatch_case(), stopwatch_check, 1500)]
