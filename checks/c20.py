import os
import re

from hypothesis import strategies as st

import configcase as C
from pbt import Part, Violation

PROPERTY = 'C20'
RULE = ('random directory contents (versions 0 to 120 with gaps and leading zeros, colliding names, other files) and '
        'histories of generating, using, expanding and deleting over them; non-trivial: two or more versions exist '
        'when a name is chosen, of which the alphabetically last isn\'t the newest, or a colliding name exists')

STEMS = ['table', 'ta', 'table_v2x', 'a.b', 'x+1', 'tab(le)', 't_v', 'T_V3', 'my_part00', 'h-1', '[a]', 'v1', 'x.pkl', 'a b',
         'table_v3.pkl.old']
DIRS = ['', 'tables/', 'a.b/', './', 'x_v7.pkl/']


def text():
    return ('[Setup]\nhashtable_file_operation=%s\nhashtable_file=%s\ngen_hashtable_only=auto\n'
            'postproc_funcs_filter=["lambda x: x"]\n')


@st.composite
def version(draw):
    n = draw(st.integers(0, 12) | st.integers(0, 120) | st.integers(98, 1002) | st.sampled_from([9999, 10000, 123456]))
    return draw(st.sampled_from(['_v%d', '_v%d', '_v%d', '_v%02d', '_v%03d'])) % n


@st.composite
def existing(draw, stem):
    """A file whose name is that of a version, or close to it."""
    v = draw(version())
    k = draw(st.integers(0, 9))
    if k < 5:
        return stem + v + '.pkl'
    if k == 5:
        return stem + '.pkl'
    return draw(st.sampled_from([stem + 'x' + v + '.pkl', 'x' + stem + v + '.pkl', stem + v + '.pkl.bak',
                                 stem + v + '_fixed.pkl', stem + v + '.ini', stem + v, stem + v + v + '.pkl',
                                 stem.replace('.', 'x') + v + '.pkl', stem + '_part00' + v + '.pkl', stem + v + 'pkl',
                                 stem + '_v.pkl', stem + '_vx.pkl', stem.upper() + v + '.pkl', stem[:-1] + v + '.pkl']))


@st.composite
def case(draw):
    stem = draw(st.sampled_from(STEMS[:4] * 2 + STEMS))
    d = draw(st.sampled_from(DIRS[:2] * 2 + DIRS))
    files = [d + f for f in draw(st.lists(existing(stem), max_size=8))]
    steps = [['touch', files + [d + 'unrelated.pkl']]]
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 9))
        if k == 0:
            steps.append(['touch', [d + draw(existing(stem))]])
        elif k == 1 and files:
            steps.append(['remove', draw(st.sampled_from(files))])
        else:
            name = stem
            how = draw(st.integers(0, 3))
            if how == 1:
                name += '.pkl'
            elif how == 2:
                name += draw(version()) + '.pkl'
            elif how == 3:
                name += draw(version())
            # a stem that ends like a table would be taken for one
            if stem.endswith('.pkl') and how == 0:
                name += '.pkl'
            op = draw(st.sampled_from(['generate', 'generate', 'use', 'expand']))
            steps.append([op, d + name, draw(st.sampled_from([True, True, False]))])
    return {'steps': steps}


def parse(name):
    """(stem, version or None) of a table name."""
    if name.endswith('.pkl'):
        name = name[:-4]
    m = re.match(r'(.*)_v([0-9]+)\Z', name, re.S)
    return (m.group(1), int(m.group(2)), m.group(2)) if m else (name, None, '1')


def check(c, env):
    out = env.ok('table_names', steps=c['steps'], text=text())
    files = set()
    what = repr(c)
    for s, r in zip(c['steps'], out):
        if s[0] == 'touch':
            files |= {os.path.normpath(f) for f in s[1]}
            continue
        if s[0] == 'remove':
            files.discard(os.path.normpath(s[1]))
            continue
        res, existed, listing = r
        if res[0] != 'ok':
            raise Violation('%r: %r: %s' % (s, res, what))
        fn, saved = [os.path.normpath(f) for f in res[1]]
        d, base = os.path.split(os.path.normpath(s[1]))
        stem, given, digits = parse(base)
        old = {}
        for f in files:
            fd, fb = os.path.split(f)
            if fd == d and fb.endswith('.pkl'):
                st_, v, _ = parse(fb)
                if st_ == stem:
                    old[f] = -1 if v is None else v
        if not old:
            if fn != os.path.join(d, '%s_v%s.pkl' % (stem, digits)):
                raise Violation('%s is chosen for %r, though there is no table: %s' % (fn, s, what))
        elif s[0] == 'generate':
            fs, v, _ = parse(os.path.basename(fn))
            if os.path.dirname(fn) != d or fs != stem or v is None or not fn.endswith('.pkl'):
                raise Violation('%s is chosen for %r: %s' % (fn, s, what))
            if v <= max(old.values()) or existed[0]:
                raise Violation('%s is chosen for %r, though there are %r: %s' % (fn, s, sorted(old), what))
        elif old.get(fn) != max(old.values()):
            raise Violation('%s is chosen for %r, of %r: %s' % (fn, s, sorted(old), what))
        if s[0] == 'expand':
            fs, v, _ = parse(os.path.basename(saved))
            if existed[1] or os.path.dirname(saved) != d or fs != stem or v is None or v <= max(old.values() or [0]):
                raise Violation('%s is to be saved after expanding %s, though there are %r: %s'
                                % (saved, fn, sorted(old), what))
        if s[0] != 'use' and s[2]:
            files.add(saved)
        if set(listing) != files | {'c.ini'}:
            raise Violation('files changed: %r instead of %r: %s' % (listing, sorted(files), what))
        env.label(s[0], 'none' if not old else ('one' if len(old) == 1 else 'several'))
        colliding = any(os.path.dirname(f) == d and f not in old and os.path.basename(f).startswith(stem) for f in files)
        if len(old) > 1 and (old[max(old)] != max(old.values()) or colliding):
            env.nontrivial()


PARTS = [Part('histories', case(), check, 1500, examples=[
    {'steps': [['touch', ['t_v%d.pkl' % i for i in range(1, 11)]], ['use', 't.pkl', False], ['generate', 't', True],
               ['expand', 't', True], ['use', 't_v3.pkl', False]]},
    {'steps': [['touch', ['a_v3.pkl.old.pkl']], ['generate', 'a_v3.pkl.old.pkl', True]]}])]
