"""A search that is distributed, against the same one undivided."""
import ast
import os
from fractions import Fraction as Fr

from hypothesis import strategies as st

import c09
import c24
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C29'
SCALE = 1
RULE = ('configurations of the main program around known continued fractions, distributed into 1 to 16 parts, each part run '
        'as it is launched (in any order), the parts\' tables joined and searched, against a run of the undivided '
        'configuration; non-trivial: two or more parts that make entries')


@st.composite
def case(draw):
    hp = draw(st.sampled_from([2, 3, 4, 6, 8]))
    r = draw(c24.run('generate', draw(st.sampled_from(['auto', 'true'])), hp))
    if (r['cls'] != 'sparse' or len(r['ra'][0]) < 3) and draw(st.booleans()):
        # wider, so that there is enough to divide
        for p in (r['ra'][0], r['rb'][0]):
            for x in p:
                if S.size(r['ra']) * S.size(r['rb']) < 24 and draw(st.booleans()):
                    x[1] += draw(st.integers(0, 3))
    num = draw(st.sampled_from([1, 2, 2, 2, 4, 4, 8, 16]))
    if draw(st.integers(0, 3)) and r['cls'] != 'sparse':
        # divisible
        first = r['ra'][0] + r['rb'][0]
        for x in first:
            w = x[1] - x[0]
            x[1] = x[0] + (4 if w > 3 else 2 if w > 1 else 1)
        for _ in range(4):
            k = 1
            for x in first:
                k *= x[1] - x[0]
            if k < num:
                x = draw(st.sampled_from(first))
                x[1] += x[1] - x[0]
    return {'hp': hp, 'iters': draw(st.sampled_from([20, 60, 100])), 'runs': [r], 'num': num,
            'order': draw(st.permutations(range(16))),
            'table': draw(st.sampled_from(['parts/table', 'parts/T.pkl', 'parts/Some.table.pkl'])),
        'name': draw(st.sampled_from(['config.ini', 'my.config.ini', 'c.ini'])),
        'cli': draw(st.booleans()), 'older': draw(st.sampled_from([[], [], ['parts/notes.txt', 'other/x.pkl']]))}


def check(c, env):
    r = c['runs'][0]
    text = c24.text_of(c24.options(c, r))
    search = c24.text_of(dict(c24.options(c, dict(r, op='use', only='false')), hashtable_file='joined/table'))
    whole = c24.text_of(dict(c24.options(c, dict(r, only='false')), hashtable_file='undivided/table'))
    out = env.ok('distributed', text=text, num=c['num'], name=c['name'], search=search, whole_text=whole,
                 order=c['order'], joined='joined/table_v1.pkl', files=['parts/', 'joined/', 'undivided/'] + c['older'], cli=c['cli'])
    what = repr(c)
    if out['distribute'][0] != 'ok':
        # whether it may be refused is not judged here
        env.label('refused')
        return
    if 'configs' not in out or out['launch'][0] != 'ok':
        raise Violation('distributed into %r, and launched: %r: %s' % (out['dirs'], out.get('launch'), what))
    if len(set(out['configs'])) != c['num']:
        raise Violation('%r are launched: %s' % (out['configs'], what))
    made = 0
    tables = set()
    for cfg, p in zip(out['configs'], out['parts']):
        if p['how'][0] != 'ok':
            raise Violation('the part %s: %r: %s' % (cfg, p['how'], what))
        new = [f for f in p['new'] if not f.endswith('/')]
        if p['gone'] or p['changed'] or len(new) != 1 or list(p['tables']) != new:
            raise Violation('the part %s makes %r, changes %r, removes %r: %s' % (cfg, new, p['changed'], p['gone'], what))
        tables.update(new)
        made += bool(p['tables'][new[0]])
    if out['join'][0] != 'ok':
        raise Violation('joining: %r: %s' % (out['join'], what))
    w, s = out['whole'], out['search']
    for k in ('whole', 'search'):
        if out[k]['how'][0] != 'ok':
            raise Violation('the %s run: %r: %s' % ({'whole': 'undivided', 'search': 'joint'}[k], out[k]['how'], what))
    if s['table_file'] != os.path.normpath('joined/table_v1.pkl'):
        raise Violation('the joint search uses %s: %s' % (s['table_file'], what))
    one, = w['tables'].values()
    if c09.norm_table(out['joined']) != c09.norm_table(one):
        raise Violation('the joint table is %r, the undivided one %r: %s' % (out['joined'], one, what))
    (rows, first), (rows2, second) = [[(v[:2], v[2:]) for v in x['csv'].values()][0] for x in (w, s)]
    if rows[0] != rows2[0]:
        raise Violation('%r instead of %r: %s' % (rows2, rows, what))
    for a, b, how in ((first, second, 'lost'), (second, first, 'reported though the undivided run does not')):
        known = [read(x) for x in b]
        for x in a:
            pa, pb, pf, params = read(x)
            if not any(k[1] == pb and k[0] in (pa, c24.minus(pa)) and k[2] in (pf, c24.inverse(pf)) for k in known):
                if c24.inverse(pf) in r['pfs'] and abs(Fr(x[7]) - Fr(x[8])) > Fr(1, 10 ** 25):
                    # near enough as it is, or as its inverse only: which of both is looked at is a matter of order
                    env.label('not judged')
                    continue
                raise Violation('%r is %s by the distributed search: %s' % (x, how, what))
    env.label('%d parts' % c['num'], r['cls'], *(['results'] if first else []))
    env.nontrivial(made > 1)


def read(row):
    return [O.tuplify(ast.literal_eval(row[i])) for i in (0, 1, 2, 4)]


PARTS = [Part('end to end', case(), check, 480)]
