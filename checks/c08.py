from hypothesis import strategies as st

from pbt import Part, Violation

PROPERTY = 'C08'
RULE = ('random histories of operations on keys that agree with each other in various numbers of digits, of magnitudes '
        'from 1e-20 to 1e15, under changing accuracies and precisions; non-trivial: some operation meets an entry stored '
        'under another key, or under an earlier accuracy')

NAMES = ['parameters', 'name', 'x', 'abcdefghijklmnopqrstuvwxyz', 'abcdefghijklmnopqrstuvwxyzz', 'abcdefghij']


@st.composite
def keys(draw, n):
    """n decimal strings, many of which agree in some leading digits."""
    out = []
    for _ in range(n):
        if out and draw(st.integers(0, 3)):
            base = draw(st.sampled_from(out))
            pos = draw(st.integers(0, len(base) - 1) | st.integers(0, min(14, len(base) - 1)))
            if base[pos] in '.0':
                out.append(base)
                continue
            d = str(draw(st.integers(1, 8)))
            tail = ''.join(str(draw(st.integers(1, 8))) for _ in range(4)) * 20
            rest = base[pos + 1:]
            new = ''.join(c if c in '.' else t for c, t in zip(rest, tail)) + tail[len(rest):0]
            out.append(base[:pos] + d + (new if draw(st.booleans()) else rest))
        else:
            head = draw(st.sampled_from(['0.', '0.', '0.', '3.', '27.', '0.00', '0.00000000', '0.' + '0' * 20, '4512.',
                                         '123456789.', '765432187654321.']))
            chunk = ''.join(str(draw(st.integers(1, 8))) for _ in range(7))
            # (zero and other short numbers have as many digits as any other)
            out.append(head + draw(st.sampled_from([(chunk * 9)[:60]] * 5 + ['0' * 60, '5' + '0' * 59])))
    return out


@st.composite
def case(draw):
    ks = draw(keys(draw(st.integers(2, 6))))
    acc = st.integers(3, 24)
    nk = st.integers(0, len(ks) - 1)
    one = st.one_of(
        st.tuples(st.sampled_from(['set', 'set', 'set', 'setdefault', 'append', 'append']), nk, st.integers(0, 99)),
        st.tuples(st.sampled_from(['getitem', 'in', 'notin', 'get', 'del']), nk),
        st.tuples(st.just('getd'), nk, st.integers(100, 199)),
        st.tuples(st.sampled_from(['getitem', 'in', 'get', 'set', 'setdefault', 'del', 'len', 'iter']), nk),
        st.tuples(st.just('accuracy'), acc),
        st.tuples(st.just('dps'), st.sampled_from([34, 50, 50, 90])),
        st.tuples(st.just('text'), st.sampled_from(['set', 'getitem', 'in', 'get', 'del', 'setdefault']), nk),
        st.tuples(st.just('name'), st.sampled_from(['set', 'getitem', 'in', 'get', 'del', 'setdefault']),
                  st.integers(0, len(NAMES) - 1)),
        st.tuples(st.just('neg'), st.sampled_from(['in', 'get']), nk),
        st.tuples(st.just('raw'), st.sampled_from(['set', 'getitem', 'in', 'get', 'setdefault', 'del']),
                  st.sampled_from(['int', 'float', 'tuple', 'none'])))
    if draw(st.integers(0, 3)) == 0:
        # the accuracy changes up and down between a few operations on keys that agree in many digits
        one = st.one_of(st.tuples(st.sampled_from(['set', 'set', 'setdefault', 'append']), nk, st.integers(0, 99)),
                        st.tuples(st.sampled_from(['getitem', 'get', 'del', 'set', 'len']), nk),
                        st.tuples(st.just('accuracy'), acc))
    steps = draw(st.lists(one, min_size=4, max_size=30))
    return {'acc': draw(acc), 'keys': ks, 'steps': [list(s) for s in steps]}


class Model:
    """(leading characters -> value), by the accuracy they were stored at."""
    def __init__(self, acc):
        self.acc = acc
        self.old = []
        self.d = {}
        self.met = False

    def prefixes(self, text):
        if text.isalpha():
            return [text]
        return [text[:a + 2] for a in self.old + [self.acc]]

    def find(self, text):
        for i, p in enumerate(self.prefixes(text)):
            if p in self.d:
                if self.d[p][0] != text or i < len(self.old):
                    self.met = True
                return p
        return None

    def do(self, m, text, v=None):
        p = self.find(text)
        if m in ('set', 'setdefault', 'append'):
            if m != 'set' and p is not None:
                if m == 'append':
                    self.d[p][1].append(v)
                    return ['ok', None]
                return ['ok', self.d[p][1]]
            for q in self.prefixes(text):
                self.d.pop(q, None)
            self.d[self.prefixes(text)[-1]] = [text, [v] if m == 'append' else v]
            return ['ok', v if m == 'setdefault' else None]
        if m == 'in':
            return ['ok', p is not None]
        if m == 'notin':
            return ['ok', p is None]
        if m in ('get', 'getd'):
            return ['ok', self.d[p][1] if p is not None else v]
        if p is None:
            return ['exc', 'KeyError']
        if m == 'getitem':
            return ['ok', self.d[p][1]]
        if m == 'del':
            del self.d[p]
            return ['ok', None]
        raise ValueError(m)


def plan(c, env=None):
    """The steps for the real table, and what each should give."""
    import copy
    model = Model(c['acc'])
    dps = 50
    sent, expect = [], []
    counter = 1000
    for s in c['steps']:
        counter += 1
        m = s[0]
        if m == 'accuracy':
            sent.append(['accuracy', s[1]])
            model.old.append(model.acc)
            model.acc = s[1]
            expect.append(['ok', None])
        elif m == 'dps':
            sent.append(s)
            expect.append(['ok', None])
        elif m == 'len':
            sent.append(['len'])
            expect.append(['ok', len(model.d)])
        elif m == 'iter':
            sent.append(['values'])
            expect.append(copy.deepcopy(['ok', sorted((v for _, v in model.d.values()), key=repr)]))
        elif m == 'raw':
            sent.append([s[1], {'raw': s[2]}] + ([5] if s[1] in ('set', 'setdefault') else []))
            expect.append(['exc', 'TypeError'])
        elif m == 'neg' and not c['keys'][s[2]].strip('0.'):
            sent.append([s[1], {'s': '-' + c['keys'][s[2]]}])
            expect.append(copy.deepcopy(model.do(s[1], c['keys'][s[2]])))
        elif m == 'neg':
            sent.append([s[1], {'s': '-' + c['keys'][s[2]]}])
            expect.append(['ok', False if s[1] == 'in' else None])
        else:
            if m == 'text':
                m, text = s[1], c['keys'][s[2]]
                key = text
            elif m == 'name':
                m, text = s[1], NAMES[s[2]]
                key = text
            else:
                text = c['keys'][s[1]]
                key = {'s': text}
            v = s[2] if s[0] in ('set', 'setdefault', 'append', 'getd') and len(s) > 2 else counter
            if m == 'append':
                p = model.find(text)
                if p is not None and not isinstance(model.d[p][1], list):
                    m = 'set'
            args = [m, key] + ([v] if m in ('set', 'setdefault', 'append', 'getd') else [])
            sent.append(args)
            expect.append(copy.deepcopy(model.do(m, text, v if m not in ('get',) else None)))
    # at last, look at all of the keys
    for text in c['keys']:
        sent.append(['get', {'s': text}])
        expect.append(copy.deepcopy(model.do('get', text)))
    sent.append(['len'])
    expect.append(['ok', len(model.d)])
    return sent, expect, model


def check(c, env):
    sent, expect, model = plan(c)
    got = env.ok('table_history', accuracy=c['acc'], steps=sent)
    for i, (s, e, g) in enumerate(zip(sent, expect, got)):
        if g[:len(e)] != e:
            raise Violation('accuracy %d: %r gave %r instead of %r after %r' % (c['acc'], s, g, e, sent[:i]))
    env.label(*{s[0] for s in c['steps']})
    if model.old:
        env.label('several accuracies')
    env.nontrivial(model.met)


@st.composite
def extreme(draw):
    """Keys d.ddd * 10^e, for any e."""
    big = st.integers(-10 ** 18, 10 ** 18)
    out = []
    for _ in range(draw(st.integers(2, 5))):
        digits = ''.join(str(draw(st.integers(1, 8))) for _ in range(6)) * 4
        if out and draw(st.booleans()):
            digits = draw(st.sampled_from(out))[0]
        out.append([digits, draw(big | st.integers(-400, 400))])
    return {'acc': draw(st.integers(3, 12)), 'keys': out, 'more': draw(st.integers(0, 3)),
            'order': draw(st.lists(st.integers(0, len(out) - 1), min_size=1, max_size=8))}


def leading(digits, e, n):
    """The first n characters of the fixed-point notation of 0.ddd * 10^e."""
    if e <= 0:
        return ('0.' + '0' * min(-e, n) + digits)[:n]
    if e >= n:
        return (digits + '0' * n)[:n]
    return (digits + '0' * n)[:e] + '.' + digits[e:]


def extreme_check(c, env):
    steps, want = [], []
    model = {}
    n = c['acc'] + 2
    for i in c['order']:
        digits, e = c['keys'][i]
        key = {'s': '0.%se%d' % (digits, e)}
        lead = leading(digits, e, n)[:n]
        steps.append(['get', key])
        want.append(list(model[lead]) if lead in model else None)
        steps.append(['append', key, i])
        want.append(None)
        model.setdefault(lead, []).append(i)
    for digits, e in c['keys']:
        steps.append(['get', {'s': '0.%se%d' % (digits, e)}])
        want.append(model.get(leading(digits, e, n)[:n]))
    got = env.ok('table_history', accuracy=c['acc'], steps=steps)
    for i, (s, w, g) in enumerate(zip(steps, want, got)):
        if g != ['ok', w]:
            raise Violation('accuracy %d: %r gave %r instead of %r after %r' % (c['acc'], s, g, w, steps[:i]))
    env.nontrivial(len(model) < len(c['order']) or any(abs(e) > 1000 for _, e in c['keys']))


K = ['0.1234567812345678', '0.1234567822345678']
PARTS = [Part('histories', case(), check, 5000, examples=[
    {'acc': 5, 'keys': K, 'steps': [['set', 0, 1], ['get', 1], ['setdefault', 1, 2], ['append', 1, 3], ['del', 1]]},
    {'acc': 4, 'keys': K, 'steps': [['name', 'set', 0], ['name', 'in', 0], ['name', 'get', 5], ['len', 0]]}]),
         Part('magnitudes', extreme(), extreme_check, 600, examples=[
             {'acc': 5, 'keys': [['123', 10 ** 15], ['123', -10 ** 15], ['456', 10 ** 15]], 'more': 0,
              'order': [0, 1, 2, 1]}])]
