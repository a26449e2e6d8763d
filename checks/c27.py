import copy
from collections import Counter
from fractions import Fraction as Fr

from hypothesis import strategies as st

import c06
import c08
import c09
import mitmcase as M
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C27'
RULE = ('random sequences of builds of overlapping ranges and post-function subsets, with redefinitions of the table '
        'precision, the post-functions and the family in between, against all the entries the ranges call for and '
        'against one build of everything; non-trivial: an entry is called for by two builds and each of them adds some')


@st.composite
def case(draw):
    o = draw(M.settings(hp=(1, 2, 3, 4, 6)))
    o['trunc'] = True
    first = list(draw(M.ranges(o, 4, 8)))
    stages = [{'builds': [first + [draw(st.booleans())]]}]
    cur = o
    for _ in range(draw(st.integers(1, 4))):
        stage = {'builds': []}
        if draw(st.booleans()):
            new = copy.deepcopy(cur)
            for what in draw(st.lists(st.sampled_from(['pfs', 'pfs', 'hp', 'cls']), min_size=1, max_size=2, unique=True)):
                if what == 'pfs':
                    new['pfs'] = draw(st.lists(st.sampled_from(cur['pfs'] + [0, 1, 2, 10]), min_size=1, max_size=4,
                                               unique=True))
                elif what == 'hp':
                    new['hp'] = cur['hp'] + draw(st.sampled_from([0, 1, 2, 4]))
                else:
                    new['cls'] = draw(st.sampled_from(['normal', 'indexed', 'sparse']))
                    new.pop('special', None)
                    if new['cls'] == 'sparse':
                        new['special'] = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
            stage['o'] = cur = new
        for _ in range(draw(st.integers(1, 2))):
            if draw(st.booleans()):
                ra, rb = draw(M.ranges(cur, 4, 8))
            else:
                # ranges that overlap earlier ones
                old = draw(st.sampled_from([b for s in stages + [stage] for b in s['builds']]))
                ra, rb = copy.deepcopy(old[:2])
                side = draw(st.sampled_from([ra, rb]))
                r = draw(st.sampled_from([r for p in side for r in p]))
                d = draw(st.sampled_from([0, 1, -1]))
                r[0] += d
                r[1] += d + draw(st.sampled_from([0, 0, 1]))
                if cur['cls'] == 'sparse':
                    # interlaces of equally many coefficients, within the degree bound
                    ra, rb = ([p[:min([n] + [len(q) for q in r])] for p in r]
                              for n, r in zip(cur['special'], (ra, rb)))
                    while c06.placements(ra, cur['special'][0]) > 10:
                        ra = ra[:-1]
                    while c06.placements(rb, cur['special'][1]) > 20:
                        rb = rb[:-1]
            stage['builds'].append([ra, rb, draw(st.sampled_from([True, True, False]))])
        stages.append(stage)
    return {'o': o, 'stages': stages, 'lhs': draw(M.lhs(14))}


def check(c, env):
    o = c['o']
    steps = [['new', o]]
    cur = dict(o)
    top = max([o['hp']] + [s['o']['hp'] for s in c['stages'] if 'o' in s])
    hps = {o['hp']} | {s['o']['hp'] for s in c['stages'] if 'o' in s}
    model = c08.Model(o['hp'])
    once = {}
    opens = set()
    maybe = {}
    repeated = added = 0
    late = False
    for i, s in enumerate(c['stages']):
        if 'o' in s:
            steps.append(['redefine', s['o']])
            cur = dict(s['o'], iters=o['iters'])
            cur.pop('exp_conv', None)
            if 'exp_conv' in o:
                cur['exp_conv'] = o['exp_conv']
            model.old.append(model.acc)
            model.acc = cur['hp']
        for ra, rb, validate in s['builds']:
            steps.append(['build', ra, rb, validate])
            more = 0
            for e, (status, key) in O.table_entries(dict(cur, hp=top), [(ra, rb)]).items():
                if key[0] == 'never':
                    continue
                if key[0] == 'open' or not status:
                    if e not in once:
                        opens.add(e)
                    continue
                if e in once:
                    repeated += 1
                    continue
                opens.discard(e)
                once[e] = key[1]
                more += 1
                p = model.find(key[1])
                if p is None:
                    model.d[model.prefixes(key[1])[-1]] = [key[1], [e]]
                else:
                    model.d[p][1].append(e)
            added += more
            late = late or (more and i > 0)
    out = env.ok('mitm', steps=steps + [['table'], ['history'], ['find'] + c['lhs'], ['get']])
    table, history, _, found = out[-4:]
    what = repr(c)
    got = Counter()
    where = {}
    for k, v in table:
        for ab, pf in v:
            e = (O.tuplify(ab), pf)
            got[e] += 1
            where.setdefault(e, k)
    for e, n in got.items():
        if n > 1:
            raise Violation('%r is stored %d times: %s' % (e, n, what))
        if e not in once and e not in opens:
            raise Violation('%r is stored, but no build called for it: %s' % (e, what))
    for e in once:
        if e not in got:
            raise Violation('%r isn\'t stored: %s' % (e, what))
    multi = len(hps) > 1
    if not (multi and opens):
        for k, (_, v) in model.d.items():
            for e in v:
                if where[e] != k:
                    raise Violation('%r is stored under %s instead of %s: %s' % (e, where[e], k, what))
    if history[0] != cur['hp'] + 1:
        raise Violation('the table has the accuracy %d at last: %s' % (history[0], what))
    # entries of all stages are found
    t = Fr(o['target']['value'] if 'o' not in c['stages'][-1] else c['stages'][-1]['o']['target']['value'])
    kind, lp = c['lhs']
    clicks = {(O.tuplify(r['ab']), r['pf'], O.canon_lhs(kind, r['lhs']['params'])) for r in found}
    if not opens:
        for p in O.enum_lhs(kind, lp, t):
            if O.degenerate(kind, p) is not False:
                continue
            try:
                text = O.lhs_key(kind, p, t, top, True)
            except O.Bad:
                continue
            k = model.find(text)
            for e in (model.d[k][1] if k else ()):
                if (*e, O.canon_lhs(kind, p)) not in clicks:
                    raise Violation('the match of %r (stored as %s) and %r is not found: %s' % (e, k, p, what))
    if 'o' not in c['stages'][-1] and not any('o' in s for s in c['stages']):
        # a single build of each of the ranges anew, in reverse
        again = env.ok('mitm', steps=[['new', o]] + [['build', b[0], b[1]] for s in reversed(c['stages'])
                                                    for b in reversed(s['builds'])] + [['table']])[-1]
        if c09.norm_table(again) != c09.norm_table(table):
            raise Violation('in another order the table is another: %s' % what)
        env.label('reversed')
    env.label(*({'redefined ' + k for s in c['stages'] if 'o' in s for k in ('hp', 'pfs', 'cls')
                 if s['o'][k] != o[k]} | {'validate %s' % b[2] for s in c['stages'] for b in s['builds']}))
    env.nontrivial(repeated and late)


PARTS = [Part('builds', case(), check, 800)]
