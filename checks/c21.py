import itertools
import os

from hypothesis import strategies as st

import configcase as C
import mitmcase as M
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C21'
RULE = ('random configurations and ranges (negative, of width one, interlaced) split into random numbers of parts, and '
        'directories of configurations and other files launched (recording the commands); non-trivial: four or more '
        'parts, or a refusal of a power of two; two or more configurations among other files')


@st.composite
def ranges(draw):
    if draw(st.booleans()):
        # widths that are powers of two
        w = st.sampled_from((1, 1, 2, 2, 4))
    else:
        w = st.sampled_from((1, 1, 2, 3, 4, 5, 6))

    def poly(k):
        out = []
        for _ in range(k):
            lo, n = draw(st.integers(-7, 5)), draw(w)
            out.append([lo, lo + n])
        return out
    a = [poly(draw(st.integers(1, 3))) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    b = [poly(draw(st.integers(1, 3))) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    for side in (a, b):
        while S.size(side) > 80:
            r = max((r for p in side for r in p), key=lambda r: r[1] - r[0])
            r[1] = r[0] + (r[1] - r[0] + 1) // 2
    return a, b


@st.composite
def case(draw):
    c = draw(C.options(ranges=ranges()))
    num = draw(st.sampled_from([1, 2, 2, 4, 4, 4, 8, 8, 16, 32]) | st.sampled_from([3, 5, 6, 7, 9, 12, 0, -2, 24]))
    return {'num': num, 'options': c, 'text': draw(C.layout(c)),
            'name': draw(st.sampled_from(['config.ini', 'sub/config_x.ini', './my.config.ini', 'a/b/c.ini', 'the config.ini', 'my.initial.ini',
                                          'x.ini.d/c.ini'])),
            'cli': draw(st.booleans()), 'files': draw(st.sampled_from([[], ['table_v2.pkl', 'T1_v10.pkl', 'tables/t_v9.pkl']]))}


@st.composite
def many_ranges(draw):
    """That can be halved seven or eight times."""
    sides = []
    left = draw(st.integers(7, 8))
    for last in (False, True):
        take = left if last else draw(st.integers(0, left))
        left -= take
        k = draw(st.integers(1, 3))
        logs = [0] * k
        for _ in range(take):
            logs[draw(st.integers(0, k - 1))] += 1
        lows = [draw(st.integers(-40, 40)) for _ in range(k)]
        sides.append([[[lo, lo + 2 ** w] for lo, w in zip(lows, logs)]])
    return tuple(sides)


@st.composite
def many_case(draw):
    c = draw(C.options(ranges=many_ranges()))
    return {'num': draw(st.sampled_from([64, 128, 128, 256])), 'options': c, 'text': draw(C.layout(c)),
            'name': draw(st.sampled_from(['config.ini', 'x.ini.d/c.ini'])), 'cli': draw(st.booleans()), 'files': []}


def log2(n):
    k = 0
    while n % 2 == 0:
        n //= 2
        k += 1
    return k


def divisible(p, k):
    """Halving again and again surely works: the widths are powers of two, with k halvings between them."""
    ws = [hi - lo for lo, hi in p]
    return all(w & (w - 1) == 0 for w in ws) and sum(log2(w) for w in ws) >= k


def combos(a, b):
    return list(itertools.product(O.ranges_product(a), O.ranges_product(b)))


def check(c, env):
    num = c['num']
    r = env.ok('distribute', num=num, name=c['name'], text=c['text'], files=c['files'] + ['tables/other.pkl'], cli=c['cli'])
    what = 'distributing to %d: %r' % (num, c['text'])
    ra, rb = c['options']['a_coeffs_range'][2], c['options']['b_coeffs_range'][2]
    if not r['kept']:
        raise Violation('existing files changed: %s' % what)
    if num < 1 or num & (num - 1):
        if r['how'][0] != 'exc' or r['parts']:
            raise Violation('a number that is no power of two is accepted: %s' % what)
        env.label('not a power of two')
        return
    k = log2(num)
    first = ra[0] + rb[0]
    if r['how'][0] == 'exc':
        if divisible(first, k):
            raise Violation('divisible ranges are refused, %r: %s' % (r['how'], what))
        if r['parts']:
            raise Violation('refused, but written: %s' % what)
        env.label('refused')
        env.nontrivial()
        return
    if S.size([ra[0]]) * S.size([rb[0]]) < num and S.size(ra) * S.size(rb) < num:
        raise Violation('ranges with fewer combinations than parts are accepted: %s' % what)
    if len(r['parts']) != num:
        raise Violation('%d files: %s' % (len(r['parts']), what))
    dirs = {os.path.dirname(f) for f in r['parts']}
    if len(dirs) != 1 or os.path.normpath(dirs.pop()) == os.path.normpath(os.path.dirname(c['name']) or '.'):
        raise Violation('files are written to %r: %s' % (sorted(r['parts']), what))
    seen = {}
    tables = {}
    for f, (how, *cfg) in r['parts'].items():
        if how != 'ok':
            raise Violation('%s can\'t be loaded, %r: %s' % (f, cfg, what))
        if not f.endswith('.ini'):
            raise Violation('%s is not launched as a configuration: %s' % (f, what))
        cfg = cfg[0]
        for key, v in r['original'].items():
            if key in ('a_coeffs_range', 'b_coeffs_range', 'hashtable_file') or key not in list(c['options']) + list(
                    C.OPTIONAL):
                continue
            if cfg.get(key) != v:
                raise Violation('%s is %r instead of %r in %s: %s' % (key, cfg.get(key), v, f, what))
        t = os.path.normpath(cfg['hashtable_file'][1])
        if t in tables or t == os.path.normpath(r['original']['hashtable_file'][1]):
            raise Violation('the table %s is that of %s, too: %s' % (t, tables.get(t, 'the original'), what))
        if os.path.dirname(t) != os.path.dirname(os.path.normpath(r['original']['hashtable_file'][1])):
            raise Violation('the table %s is in another directory: %s' % (t, what))
        tables[t] = f
        if not combos(cfg['a_coeffs_range'][1], cfg['b_coeffs_range'][1]):
            raise Violation('there is nothing in %s: %s' % (f, what))
        for x in combos(cfg['a_coeffs_range'][1], cfg['b_coeffs_range'][1]):
            if x in seen:
                raise Violation('%r is in both %s and %s: %s' % (x, seen[x], f, what))
            seen[x] = f
    want = combos(ra, rb)
    if set(want) != set(seen):
        raise Violation('combinations missing, or too many: %r: %s'
                        % (sorted(set(want) ^ set(seen))[:3], what))
    env.label('%d parts' % num)
    env.nontrivial(num >= 4)


NAME = st.sampled_from(['a', 'config_0', 'config_10', 'x.y', 'z-1', 'C', 'ini', 'config.ini', 'aini'])


@st.composite
def launch_case(draw):
    d = draw(st.sampled_from(['dist', 'x/config_dist_4', './dist', 'dist/']))
    files = draw(st.lists(st.tuples(NAME, st.sampled_from(['.ini', '.ini', '.ini', '.txt', '.pkl', '', '.ini.bak', '.inix'])),
                          max_size=8, unique=True))
    return {'directory': d, 'cli': draw(st.booleans()), 'files': [os.path.join(d, a + b) for a, b in files] + ['other/z.ini', 'y.ini']
            + [os.path.join(d, 'sub', 'w.ini')][:draw(st.integers(0, 1))]
            + [os.path.join(d, 'none.txt')]}


def launch_check(c, env):
    r = env.ok('launch', **c)
    d = os.path.normpath(c['directory'])
    want = sorted({os.path.normpath(f) for f in c['files'] if os.path.dirname(os.path.normpath(f)) == d
                   and os.path.splitext(f)[1] == '.ini'})
    what = '%r: %r' % (c, r['commands'])
    if r['how'][0] != 'ok' or not r['same_files']:
        raise Violation('%r: %s' % (r['how'], what))
    got = []
    for cmd in r['commands']:
        words = cmd.replace('"', ' ').replace("'", ' ').split()
        if not any(os.path.basename(w) == 'main.py' for w in words):
            raise Violation('%s does not run main.py: %s' % (cmd, what))
        got.append(os.path.normpath(words[-1]))
    if sorted(got) != want:
        raise Violation('%r are launched instead of %r: %s' % (sorted(got), want, what))
    env.nontrivial(len(want) > 1 and len(c['files']) > len(want) + 3)


PARTS = [Part('arguments', M.arguments('distribute_run.py', (3, 4)) | M.arguments('run_distributed_configs.py', (0, 2, 3)),
              M.check_arguments, 30, shards=1),
         Part('splitting', case(), check, 1000), Part('many', many_case(), check, 24),
         Part('launching', launch_case(), launch_check, 400)]
