import copy

from hypothesis import strategies as st

import c09
import mitmcase as M
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C10'
RULE = ('random searches whose ranges are divided at random into 2 to 6 parts, each built and saved on its own and then '
        'joined, against one undivided table; also parts which share a history of accuracies and entries, parts of other accuracies, other files beside them, and output files '
        'that exist already; tables appended to each other in memory. Non-trivial: parts were joined that share keys')


@st.composite
def case(draw):
    o = draw(M.settings(hp=(1, 1, 2, 2, 3, 5)))
    ra, rb = draw(M.ranges(o, 8, 12))
    cuts = draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 50), st.integers(1, 3)), min_size=1, max_size=5))
    names = draw(st.permutations(['a.pkl', 'b_v1.pkl', 'c_v10.pkl', 'part02.pkl', 'z.x.pkl', 'Q.pkl']))
    return {'o': o, 'ranges': [ra, rb], 'cuts': [list(c) for c in cuts], 'names': names,
            'extra': draw(st.lists(st.sampled_from(['notes.txt', 'a.pkl.bak', 'pkl', 'b.pk', 'c.ini', 'd.pkl~']),
                                   unique=True, max_size=3)),
            'output': draw(st.sampled_from(['joined.pkl', 'out/joined_v1.pkl', 'out/x', 'joined_hashtable.pkl'])),
            'existing': draw(st.integers(0, 7)) == 0, 'other': draw(st.integers(0, 7)) == 0,
            'older': draw(st.sampled_from([[], [], [1], [3], [2, 1], [1, 2, 3], [4, 1, 2]])),
            'grow': draw(st.sampled_from([[], [], [], [1], [2], [4], [1, 3]])),
            'cli': draw(st.booleans()), 'early': draw(st.tuples(*[small(o)] * 3)), 'lhs': draw(M.lhs(12))}


@st.composite
def small(draw, o):
    return draw(st.none() | M.ranges(o, 3, 3))


def divide(ranges, cuts):
    """Parts whose ranges together are the given ones."""
    parts = [ranges]
    for which, leaf, at in cuts:
        if len(parts) >= 6:
            break
        i = which % len(parts)
        leaves = [(s, p, k) for s in (0, 1) for p, poly in enumerate(parts[i][s]) for k, r in enumerate(poly)
                  if r[1] - r[0] > 1]
        if not leaves:
            continue
        s, p, k = leaves[leaf % len(leaves)]
        lo, hi = parts[i][s][p][k]
        mid = lo + 1 + at % (hi - lo - 1) if hi - lo > 2 else lo + 1
        one, two = copy.deepcopy(parts[i]), copy.deepcopy(parts[i])
        one[s][p][k] = [lo, mid]
        two[s][p][k] = [mid, hi]
        parts[i:i + 1] = [one, two]
    return parts


def hits(lst):
    return sorted(repr([r['ab'], r['pf'], r['lhs']['params']]) for r in lst)


def check(c, env):
    o = c['o']
    parts = divide(c['ranges'], c['cuts'])
    pre = [['new', o]]
    stages = [pre] * len(parts)
    if c.get('grow'):
        # parts which were all expanded, each with its share of the ranges, in a growing precision
        hps = [o['hp'] + sum(c['grow'][:i]) for i in range(len(c['grow']) + 1)]
        pre = [['new', dict(o, hp=hps[0])]]
        stages = [list(pre) for _ in parts]
        for hp, early in zip(hps[1:], c['early']):
            if early:
                pre.append(['build'] + list(early))
                for i, piece in enumerate(divide(list(early), c['cuts'][::-1])):
                    stages[i % len(parts)].append(['build'] + list(piece))
            for x in [pre] + stages:
                x.append(['redefine', dict(o, hp=hp)])
        env.label('expanded parts')
    elif c['older']:
        # tables of which the precision was changed before
        hps = [o['hp'] + d for d in c['older']] + [o['hp']]
        pre = [['new', dict(o, hp=hps[0])]]
        for hp, early in zip(hps[1:], c['early']):
            if early:
                pre.append(['build'] + list(early))
            pre.append(['redefine', dict(o, hp=hp)])
        stages = [pre] * len(parts)
        env.label('%d accuracies' % len(hps))
    find = [['find'] + c['lhs'], ['get']]
    whole = env.ok('mitm', steps=pre + [['build'] + c['ranges'], ['table'], ['history']] + find)
    spec = []
    for i, (p, name) in enumerate(zip(parts, c['names'])):
        mine = stages[i]
        if c['other'] and i and i == len(parts) - 1:
            mine = [['new', dict(o, hp=o['hp'] + 50)]]
        spec.append([name, mine + [['build'] + p, ['params'], ['table']]])
    r = env.ok('join', parts=spec, extra=c['extra'], output=c['output'], existing=c['existing'], cli=c.get('cli'),
               after=[['table'], ['history'], ['has_params']] + find)
    what = repr(c)
    for f, h in r['before'].items():
        if r['files'].get(f, 'gone') != h:
            raise Violation('%s was changed by the joining: %s' % (f, what))
    new = sorted(set(r['files']) - set(r['before']))
    if c['existing']:
        if new:
            raise Violation('%r were written though the output exists: %s' % (new, what))
        env.label('existing output')
        return
    if c['other'] and len(parts) > 1:
        if r['how'][0] == 'ok' or new:
            raise Violation('tables of different accuracies were joined: %s' % what)
        env.label('other accuracy')
        return
    if r['how'][0] != 'ok':
        raise Violation('joining failed: %r: %s' % (r['how'], what))
    if new != [c['output']]:
        raise Violation('%r were written instead of %s: %s' % (new, c['output'], what))
    table, history, has_params, _, found = r['after']
    union = {}
    shared = False
    for p in r['parts']:
        for k, v in p:
            union.setdefault(k, [])
            shared = shared or bool(union[k])
            union[k] += [x for x in v if x not in union[k]]
    if c.get('grow'):
        hidden = found_under(union, [hp + 1 for hp in hps[:-1]])
        if hidden != union:
            env.label('hidden entries')
        union = hidden
    want = c09.norm_table([[k, v] for k, v in union.items()])
    got = c09.norm_table(table)
    if want != got:
        raise Violation('the joined table is %r instead of %r: %s' % (got, want, what))
    if got != c09.norm_table(whole[-4]):
        raise Violation('the joined table is %r, but the undivided one is %r: %s' % (got, whole[-4], what))
    if not has_params:
        raise Violation('the joined table lost its parameters: %s' % what)
    if history != whole[-3]:
        raise Violation('the joined table has accuracies %r instead of %r: %s' % (history, whole[-3], what))
    if hits(found) != hits(whole[-1]):
        raise Violation('a search in the joined table finds %r instead of %r: %s' % (hits(found), hits(whole[-1]), what))
    env.label('%d parts' % len(parts), o['cls'], *(['found'] if found else []))
    env.nontrivial(shared and len(parts) > 1)


def found_under(union, history):
    """The entries under the keys under which they're found: of the accuracies used so far, the first that has an entry."""
    res = {}
    for k, v in union.items():
        where = [k[:a + 1] for a in history if k[:a + 1] in union] if not k.isalpha() else []
        at = res.setdefault((where + [k])[0], [])
        at += [x for x in v if x not in at]
    return res


@st.composite
def memory_case(draw):
    """Tables of few keys, so that they share many."""
    n = draw(st.integers(2, 5))
    acc = draw(st.integers(4, 9))
    key = st.sampled_from(['parameters', 'x', '0.123451', '0.12346', '0.5', '7.25', '0.99999', '0.1'])
    out = []
    for _ in range(n):
        hist = draw(st.sampled_from([[], [], [], [3], [2, 3], [5, 2]]))
        accs = hist + [acc + (draw(st.integers(0, 9)) == 0)]
        todo = []
        for a in accs[1:] + [None]:
            for k in draw(st.lists(key, max_size=5, unique=True)):
                todo.append([k, draw(st.lists(st.integers(0, 6), max_size=4, unique=True))])
            if a is not None:
                todo.append([None, a])
        out.append([accs[0], todo])
    ix = st.integers(0, n - 1)
    return {'tables': out, 'steps': draw(st.lists(st.lists(ix, min_size=2, max_size=2), min_size=1, max_size=6))}


def memory_check(c, env):
    was, *steps = env.ok('append_tables', **c)
    depth = {}
    for (i, j), (how, now) in zip(c['steps'], steps):
        want = [list(t) for t in was]
        what = 'appending table %d to %d: %r: %r' % (j, i, was, c)
        if was[i][1] != was[j][1]:
            if how[0] != 'exc':
                raise Violation('tables of different accuracies are joined: ' + what)
            env.label('refused')
        else:
            if how[0] != 'ok':
                raise Violation('%r: %s' % (how, what))
            union = {k: list(v) for k, v in was[i][0]}
            for k, v in was[j][0]:
                union.setdefault(k, [])
                if set(v) - set(union[k]) and union[k] and i != j:
                    depth[k] = depth.get(k, 0) + 1
                union[k] += [x for x in v if x not in union[k]]
            shown = found_under(union, now[i][2])
            if shown != union:
                env.label('hidden entries')
            want[i][0] = [list(x) for x in shown.items()]
        for n, (w, g) in enumerate(zip(want, now)):
            if c09.norm_table(w[0]) != c09.norm_table(g[0]) or w[1] != g[1]:
                raise Violation('table %d is %r instead of %r after %s' % (n, g, w, what))
            # (which accuracies the appended one had matters only to what can be found)
            if (w[2] != g[2] if n != i or how[0] == 'exc' else set(g[2]) != set(w[2]) | set(was[j][2])):
                raise Violation('table %d has the former accuracies %r after %s' % (n, g[2], what))
        was = now
    env.label('%d tables' % len(was))
    env.nontrivial(max(depth.values(), default=0) > 1)


# placed sparsely, both parts give the same polynomial
SAME = {'o': {'target': {'value': '1.2345678'}, 'pfs': [0], 'hp': 2, 'cls': 'sparse', 'iters': 9, 'special': [1, 3],
              'exp_conv': False},
        'ranges': [[[[1, 2]]], [[[0, 2], [0, 2]]]], 'cuts': [[0, 0, 0]],
        'names': ['a.pkl', 'b.pkl', 'c.pkl', 'd.pkl', 'e.pkl', 'f.pkl'], 'extra': [], 'output': 'joined.pkl',
        'existing': False, 'other': False, 'older': [], 'early': [None] * 3, 'lhs': ['ulcd', [2, 2, 2, 2]]}
PARTS = [Part('divisions', case(), check, 500, examples=[SAME]),
         Part('memory', memory_case(), memory_check, 1500),
         Part('arguments', M.arguments('join_hashtables.py', (0, 3, 4)), M.check_arguments, 20, shards=1)]
