"""Whole runs of the main program, over several runs in one directory."""
import ast
import itertools
import os
from fractions import Fraction as Fr

import mpmath
from mpmath import mpf
from hypothesis import strategies as st

import c16
import c18
import configcase as CC
import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C24'
SCALE = 1
RULE = ('sequences of runs (generate, use, expand; searching or not) of the main program from configurations around known '
        'and random continued fractions and expressions of the constants; what must be reported and what may be comes '
        'from a model of the search with exact convergents; non-trivial: a run whose results must include at least one')

# a, b, and the value as p(const)/q(const)
SEEDS = {'pi': [[[1, 2], [0, 0, 1], [[4], [0, 1]]], [[3, 6], [0, 0, 3], None], [[2, 2], [1, 4, 4], None]],
         'e': [[[3, 1], [0, -1], [[0, 1], [1]]], [[2, 4], [1], [[1, 1], [-1, 1]]], [[0, 1], [0, 1], [[1], [-1, 1]]],
               [[1, 1], [1, 1], [[0, 1], [1]]], [[6, 4], [1], None]],
         'phi': [[[1], [1], [[0, 1], [1]]], [[3], [-1], [[1, 1], [1]]], [[4], [1], [[1, 2], [1]]]],
         'zeta 2': [[[3, 11, 11], [0, 0, 0, 0, 1], [[5], [0, 1]]]],
         'zeta 3': [[[5, 27, 51, 34], [0, 0, 0, 0, 0, 0, -1], [[6], [0, 1]]]],
         'apery': [[[5, 27, 51, 34], [0, 0, 0, 0, 0, 0, -1], [[6], [0, 1]]]],
         'euler_masch': [[[1, 1], [1, 1], None]], 'feig 1': [[[1], [1], None]], 'percolation 0': [[[3], [-1], None]],
         'zeta 5': [[[2, 1], [1], None]]}


_near = {}


def near(name, i, only=None):
    """A continued fraction that is near an expression of a constant up to an integer, for want of a known identity."""
    if (name, i, repr(only)) not in _near:
        t = float(c18.truth(name, i))
        best = []
        for a, b, x in (([1], [1], 1.6180339887), ([3], [-1], 2.6180339887), ([2], [1], 2.4142135624),
                        ([1, 1], [1, 1], 1.7182818285), ([2, 1], [1], 2.3130367364),
                        # (faster and faster ones)
                        ([1, 2, 3, 4], [1], 1.0997963632), ([1, 0, 0, 5], [-1], .8326529387)):
            if only is not None and (a, b) != tuple(only):
                continue
            for p0, p1, q0, q1 in itertools.product(range(-3, 4), range(1, 4), range(-3, 4), range(0, 3)):
                q = q0 + q1 * t
                if abs(q) > .01 and (q1 or q0 > 0):
                    d = (p0 + p1 * t) / q - x
                    best.append((abs(d - round(d)), [a, b, [[p0, p1], [q0, q1] if q1 else [q0]]]))
        best.sort(key=lambda v: v[0])
        _near[name, i, repr(only)] = [v for _, v in best[:6]]
    return _near[name, i, repr(only)]


@st.composite
def around(draw, c, width):
    out = []
    for x in c:
        w = draw(st.sampled_from([1, 1, 2, 3][:width + 1]))
        lo = x - draw(st.integers(0, w - 1))
        out.append([lo, lo + w])
    return out


def spread(r, n):
    size = 1
    out = []
    for lo, hi in r:
        while size * (hi - lo) > n:
            hi -= 1
        size *= hi - lo
        out.append([lo, hi])
    return out


@st.composite
def lhs_ranges(draw, seed, pf):
    """Ranges of a left-hand side, that mostly contain f(seed)."""
    pq = seed[2]
    inverse = draw(st.booleans())
    if pq is not None and draw(st.integers(0, 5)):
        p, q = (pq[1], pq[0]) if (pf % 2 == 1) != (inverse and pf > 1) else pq
        if pf in (2, 3):
            p, q = ([int(x) for x in O.pmul(v, v)] for v in (p, q))
        if len(p) == 2 and len(q) == 1 and p[1] and draw(st.booleans()):
            # q0/p1 = l d
            k = [d for d in (1, 2, 3) if p[1] and q[0] % d == 0]
            l = abs(q[0])
            return ['ulcd', [draw(st.sampled_from([[0, 1], [0, 2], [-1, 1]])), [l, l + draw(st.integers(1, 3))],
                             draw(st.sampled_from([1, 2, [0, 1]])), draw(st.sampled_from([1, 2, 3]))]]
        # (up to an added integer multiple of the denominator)
        w = draw(st.sampled_from([1, 2, 2, 3]))
        rp, rq = draw(around(list(p), w)), draw(around(list(q), w))
        if draw(st.integers(0, 2)) == 0:
            rp = rp + [[0, draw(st.sampled_from([1, 2]))]]
        return ['rationalfunc', [spread(rp, 9), spread(rq, 9), draw(st.sampled_from([False, False, True]))]]
    if draw(st.booleans()):
        return ['ulcd', [draw(st.sampled_from([1, 2, [0, 3]])), draw(st.sampled_from([1, 2, [1, 4]])), 1,
                         draw(st.sampled_from([2, 3]))]]
    return ['rationalfunc', [[[-1, 3], [0, 3]], [[-2, 2], [0, 2]], draw(st.booleans())]]


@st.composite
def run(draw, op, only, hp):
    const = draw(st.sampled_from(['pi', 'pi', 'e', 'e', 'e', 'phi', 'phi', 'zeta 2', 'zeta 3', 'apery', 'euler_masch',
                                  'feig 1', 'percolation 0', 'zeta 5']))
    loose = False
    if draw(st.integers(0, 4)) == 0:
        # any other constant
        name, i = draw(st.sampled_from(c18.ALL))
        const = name if i is None else '%s %d' % (name, i)
        seed = draw(st.sampled_from(near(name, i)))
        loose = draw(st.integers(0, 3)) > 0
    else:
        seed = draw(st.sampled_from(SEEDS[const]))
    pfs = draw(st.lists(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 10, 20]), min_size=1, max_size=3, unique=True))
    cls = draw(st.sampled_from(['normal', 'normal', 'normal', 'indexed', 'sparse']))
    a, b = list(seed[0]), list(seed[1])
    special = None
    if cls == 'sparse':
        # the non-zero coefficients, placed anywhere
        special = [len(a), max(len(b), 1)]
        a, b = [x for x in a if x] or [1], [x for x in b if x] or [1]
        ra, rb = [spread(draw(around(a, 2)), 4)], [spread(draw(around(b, 2)), 3)]
        if len(a) < 3 and len(b) == 1 and draw(st.booleans()):
            special[0] += 1
    elif cls == 'indexed':
        if len(a) == 2:
            # k n + c = (k - m) n + m (n + 1) where m = c
            a = [a[1] - a[0], a[0]]
        if len(b) > 2:
            b = [1, 0] if draw(st.booleans()) else [0, 1]
        ra, rb = [spread(draw(around(a, 2)), 6)], [spread(draw(around(b, 2)), 6)]
    else:
        ra, rb = [spread(draw(around(a, 2)), 8)], [spread(draw(around(b, 2)), 8)]
        if draw(st.integers(0, 6)) == 0 and len(a) < 3 and len(b) < 4:
            # as an interlace
            if draw(st.booleans()):
                ra = [[[x, x + 1] for x in a], spread(ra[0], 4)]
            else:
                rb = [[[x, x + 1] for x in b], spread(rb[0], 4)]
    name, _, i = const.partition(' ')
    p1 = draw(st.integers(2, 12) | st.integers(2, 20))
    p2 = draw(st.integers(2, 16) | st.integers(2, 20))
    p3 = draw(st.sampled_from([3, 4, 6, 10, 16, 20, 24]))
    if hp < 4 and (draw(st.integers(0, 3)) or loose):
        # so loose, that other than true identities pass
        p1, p2, p3 = [draw(st.integers(1, 3)) for _ in range(3)]
    if loose:
        p1, p2, p3 = [draw(st.integers(1, 2)) for _ in range(3)]
    its = draw(st.sampled_from([[300, 300, 400], [200, 500, 400], [400, 250, 300], [150, 150, 150]]))
    return {'op': op, 'only': only, 'const': name, 'i': int(i) if i else draw(st.integers(0, 3)), 'cls': cls,
            'special': special, 'ra': ra, 'rb': rb, 'lhs': draw(lhs_ranges(seed, pfs[0])), 'pfs': pfs,
            'prec': [its[0], p1, its[1], p2, its[2], p3], 'print': draw(st.booleans())}


@st.composite
def case(draw):
    hp = draw(st.sampled_from([2, 3, 4, 6, 8, 8, 10]))
    kind = draw(st.sampled_from(['search', 'search', 'later', 'expand', 'free', 'free', 'other constants']))
    runs = []
    if kind == 'other constants':
        # the same table for several constants, often of the same name
        hp = draw(st.sampled_from([2, 3]))
        runs = [draw(run('generate', draw(st.sampled_from(['auto', 'false'])), hp))]
        ab = draw(st.sampled_from([([1], [1]), ([3], [-1]), ([2], [1]), ([1, 1], [1, 1])]))
        runs[0].update(cls='normal', special=None, pfs=[0], ra=[[[x, x + 1] for x in ab[0]]],
                       rb=[[[x, x + 1] for x in ab[1]]])
        names = draw(st.sampled_from([[x for x in c18.ALL if x[0] == n] for n in ('zeta', 'zeta', 'percolation', 'feig')])
                     | st.just(c18.ALL))
        for x, (name, i) in enumerate(draw(st.lists(st.sampled_from(names), min_size=2, max_size=3, unique_by=repr))):
            pq = draw(st.sampled_from(near(name, i, ab)[:3]))[2]
            more = dict(runs[0], const=name, i=0 if i is None else i,
                        lhs=['rationalfunc', [draw(around(pq[0], 2)), draw(around(pq[1], 1)), False]],
                        prec=[300, draw(st.integers(1, 2)), 300, 1, 400, 1])
            if x == 0:
                runs = [dict(more, only=runs[0]['only'])]
            else:
                runs.append(dict(more, op='use', only=draw(st.sampled_from(['auto', 'false']))))
    elif kind == 'search':
        runs.append(draw(run('generate', 'false', hp)))
    elif kind == 'later':
        r = draw(run('generate', 'false', hp))
        runs = [r, dict(r, only=draw(st.sampled_from(['auto', 'true']))),
                dict(r, op='use', only=draw(st.sampled_from(['auto', 'false'])))]
        if draw(st.booleans()):
            runs = runs[1:]
    elif kind == 'expand':
        runs = [draw(run('generate', draw(st.sampled_from(['auto', 'false'])), hp)),
                draw(run('expand', 'false', hp))]
        if draw(st.booleans()):
            runs.append(dict(runs[0], op='use', only='auto'))
    else:
        runs = [draw(run('generate', draw(st.sampled_from(['auto', 'true', 'false'])), hp))]
        for _ in range(draw(st.integers(1, 3))):
            op = draw(st.sampled_from(['generate', 'use', 'use', 'expand']))
            only = draw(st.sampled_from(['auto', 'false', 'false', 'true']))
            if draw(st.booleans()):
                runs.append(dict(draw(st.sampled_from(runs)), op=op, only=only))
            else:
                runs.append(draw(run(op, only, hp)))
    iters = draw(st.sampled_from([20, 30, 60, 100, 150]))
    if iters < 60 and hp < 8 and draw(st.booleans()):
        # the refinements need more iterations than the table
        p = draw(st.integers(9, 20))
        runs = [dict(r, prec=r['prec'][:1] + [p] + r['prec'][2:]) for r in runs]
    cli = draw(st.lists(st.sampled_from([None, 'argv', 'default']), max_size=4))
    return {'hp': hp, 'iters': iters, 'runs': runs, 'cli': cli,
            'table': draw(st.sampled_from(['table', 'tables/T.pkl', 'tables/Some_table', 'here.pkl']))}


def options(c, r):
    o = {'const': r['const'], 'i': r['i'], 'ab_polys_type': r['cls'],
         'ab_polys_special_params': 'none' if r['special'] is None else r['special'],
         'print_surprising_nonexp_contfracs': 'true' if r['print'] else 'false', 'gen_hashtable_only': r['only'],
         'a_coeffs_range': r['ra'], 'b_coeffs_range': r['rb'], 'lhs_type': r['lhs'][0], 'lhs_params': r['lhs'][1],
         'postproc_funcs_filter': [CC.TEXTS[i] for i in r['pfs']], 'hashtable_file_operation': r['op'],
         'hashtable_file': c['table'], 'hashtable_num_of_iterations': c['iters'], 'hashtable_precision': c['hp']}
    for k, n in zip(('first', 'second', 'third'), range(0, 6, 2)):
        o['%s_filtering_%snum_of_iterations' % (k, '' if k == 'first' else 'max_')] = r['prec'][n]
        o['%s_filtering_precision' % k] = r['prec'][n + 1]
    return o


def text_of(o):
    import json
    return '[Setup]\n' + ''.join('%s=%s\n' % (k, v if isinstance(v, str) else json.dumps(v)) for k, v in o.items())


def inverse(pf):
    return pf ^ 1


def minus(pa):
    return tuple(tuple(-k for k in p) for p in pa)


def limit(ab, n):
    """The value after n iterations and the limit, with the error of the second; None if they can't be told."""
    av, bv = O.ab_values(ab[0], ab[1], 1000)
    cv = O.convergents(av, bv)
    if not (cv[n][1] and cv[700][1] and cv[1000][1]):
        return None
    x, y, z = Fr(*cv[n]), Fr(*cv[700]), Fr(*cv[1000])
    return x, z, abs(y - z)


def post_key(pf, x, err, prec):
    y, yerr = O.post_value(pf, O.mp_of(x), O.mp_of(err) + abs(O.mp_of(x)) * mpf(10) ** -46)
    if y is None:
        raise O.Bad('undefined')
    return O.key_of(y, yerr, prec, True)


def lhs_equal(kind, p1, p2):
    """The same up to sign and an added integer."""
    if kind == 'ulcd':
        u, l, c, d = p1
        for s in (1, -1):
            if (u, l) == (p2[0], p2[1]) and d == s * p2[3] and (c - p2[2]) % d == 0:
                return True
        return False
    P1, Q1 = O.whole(p1)
    P2, Q2 = O.whole(p2)
    return O.differ_by_integer(P1, Q1, P2, Q2) or O.differ_by_integer(P1, Q1, [-x for x in P2], Q2)


class Search:
    """What a search in a table's entries may and must report."""
    def __init__(self, c, r, entries):
        self.kind, params = r['lhs']
        with mpmath.workdps(220):
            t = c18.truth(r['const'], r['i'])
            self.t = Fr(int(mpmath.floor(t * mpf(2) ** 500)), 2 ** 500)
        self.lhss = []
        for p in O.enum_lhs(self.kind, params, self.t):
            if O.degenerate(self.kind, p) is not True and p not in self.lhss:
                self.lhss.append(p)
        self.r, self.entries, self.hp = r, entries, c['hp']
        self.limits = {}

    def limit(self, ab, n):
        k = (ab, n)
        if k not in self.limits:
            self.limits[k] = limit(ab, n)
        return self.limits[k]

    def must(self):
        """(ab, pf, lhs, is it an identity) that pass all the filters for sure."""
        its1, p1, its2, p2, its3, p3 = self.r['prec']
        by_key = {}
        for p in self.lhss:
            if O.degenerate(self.kind, p) is None:
                continue
            try:
                by_key.setdefault(O.lhs_key(self.kind, p, self.t, self.hp, True), []).append(p)
            except O.Bad:
                pass
        for (ab, pf), (status, key) in self.entries.items():
            if not status or key[0] != 'key':
                continue
            for p in by_key.get(key[1], ()):
                try:
                    ok = True
                    for its, prec in ((its1 - 1, p1), (its2, p2), (its3, p3)):
                        lk = O.lhs_key(self.kind, p, self.t, prec, True)
                        l = self.limit(ab, its)
                        if l is None or (prec != p1 and abs(l[0] - l[1]) > Fr(1, 10 ** (prec + 6))):
                            raise O.Bad('too slow')
                        ks = [post_key(pf, x, e, prec) for x, e in ((l[0], 0), (l[1], l[2]))]
                        if any(k != lk for k in ks):
                            ok = False
                            if ks[0] != ks[1]:
                                raise O.Bad('open')
                    if not ok:
                        continue
                    if c16.classify(*ab) is not True:
                        continue
                    l = self.limit(ab, its3)
                    y, yerr = O.post_value(pf, O.mp_of(l[1]), O.mp_of(l[2]))
                    v = O.mp_of(O.lhs_value(self.kind, p, self.t))
                    d = min(abs(abs(y) - abs(v) - mpmath.nint(abs(y) - abs(v))), mpf(1))
                except O.Bad:
                    continue
                yield ab, pf, p, d < mpf(10) ** -35


def check_rows(s, rows, what, env, repeated=False):
    r = s.r
    p3, its3 = r['prec'][5], r['prec'][4]
    seen = []
    for row in rows:
        where = 'row %r: %s' % (row, what)
        if len(row) != 9:
            raise Violation('%d columns: %s' % (len(row), where))
        try:
            pa, pb, pf, params = [O.tuplify(ast.literal_eval(row[i])) for i in (0, 1, 2, 4)]
            rhs, lhs = Fr(row[7]), Fr(row[8])
        except (ValueError, SyntaxError):
            raise Violation('unreadable: %s' % where)
        if s.entries.get(((pa, pb), pf), (False,))[0] is False:
            raise Violation('it is not in the table: %s' % where)
        if row[3] != s.kind or not any(lhs_equal(s.kind, params, p) for p in s.lhss):
            raise Violation('its left-hand side is not in the ranges: %s' % where)
        if not repeated and any(x[:3] == (pa, pb, pf) and lhs_equal(s.kind, params, x[3]) and s.kind == 'rationalfunc' for x in seen):
            raise Violation('it is reported twice: %s' % where)
        seen.append((pa, pb, pf, params))
        v = O.lhs_value(s.kind, params, s.t)
        if abs(lhs - v) > Fr(1, 10 ** 35):
            raise Violation('the left-hand side is worth %s: %s' % (mpmath.nstr(O.mp_of(v), 40), where))
        if row[5] not in ('exp', 'super_exp'):
            raise Violation('its convergence is not fast: %s' % where)
        if c16.classify(pa, pb) in (False, 'finite'):
            raise Violation('it does not converge fast: %s' % where)
        l = s.limit((pa, pb), its3)
        if l is None:
            env.label('limit not judged')
            continue
        try:
            y, yerr = O.post_value(pf, O.mp_of(l[1]), O.mp_of(l[2]) + abs(O.mp_of(l[1])) * mpf(10) ** -60)
            _, e3 = O.post_value(pf, O.mp_of(l[0]), O.mp_of(abs(l[0] - l[1])) + abs(O.mp_of(l[1])) * mpf(10) ** -45)
        except O.Bad:
            env.label('limit not judged')
            continue
        if e3 > mpf(10) ** (-p3 - 3):
            env.label('limit not judged')
            continue
        if abs(y - O.mp_of(v)) > mpf(10) ** -p3 * mpf('1.01') + yerr:
            raise Violation('the sides are %s and %s, not equal to %d digits: %s'
                            % (mpmath.nstr(y, 40), mpmath.nstr(O.mp_of(v), 40), p3, where))
        if abs(y - O.mp_of(rhs)) > mpf(10) ** -p3:
            raise Violation('the right-hand side is worth %s: %s' % (mpmath.nstr(y, 40), where))
        env.label('true' if abs(y - O.mp_of(v)) < mpf(10) ** -35 else 'coincidence')
    return seen


def check_table(shown, entries, what):
    got = {}
    for k, vals in shown:
        for ab, pf in vals:
            e = (O.tuplify(ab), pf)
            if e in got:
                raise Violation('%r is stored twice: %s' % (e, what))
            got[e] = k
    for e, k in got.items():
        st_, key = entries.get(e, (False, None))
        if st_ is False or key == ('never',):
            raise Violation('%r is stored: %s' % (e, what))
        if key[0] == 'key' and k != key[1]:
            raise Violation('%r is stored as %s and not as %s: %s' % (e, k, key[1], what))
    for e, (st_, key) in entries.items():
        if st_ and key[0] == 'key' and e not in got:
            raise Violation('%r is not stored: %s' % (e, what))


def check(c, env):
    opts = [options(c, r) for r in c['runs']]
    out = env.ok('whole', runs=[text_of(o) for o in opts], files=['tables/'], cli=c['cli'])
    base = c['table'][:-4] if c['table'].endswith('.pkl') else c['table']
    versions = []          # the entries of each
    results = {}
    nontrivial = False
    for n, (r, o, res) in enumerate(zip(c['runs'], opts, out)):
        what = 'run %d of %r' % (n + 1, c)
        if res['how'][0] != 'ok':
            raise Violation('%r: %s' % (res['how'], what))
        if res['gone'] or res['changed']:
            raise Violation('files are gone (%r) or changed (%r): %s' % (res['gone'], res['changed'], what))
        new = list(res['new'])
        entries = dict(versions[-1]) if versions and r['op'] != 'generate' else {}
        tname = '%s_v%d.pkl' % (base, len(versions) + (r['op'] != 'use'))
        if r['op'] != 'use':
            mo = {'pfs': r['pfs'], 'hp': c['hp'], 'cls': r['cls'], 'iters': c['iters']}
            if r['special']:
                mo['special'] = r['special']
            for e, v in O.table_entries(mo, [[r['ra'], r['rb']]]).items():
                if e not in entries or not entries[e][0]:
                    entries[e] = v
            versions.append(entries)
            if tname not in new:
                raise Violation('%s is not saved, but %r: %s' % (tname, new, what))
            new.remove(tname)
            check_table(res['tables'][tname], entries, what)
        elif res['table_file'] != tname:
            raise Violation('%s is used: %s' % (res['table_file'], what))
        only = {'true': True, 'false': False, 'auto': r['op'] != 'use'}[r['only']]
        env.label(r['op'], 'only a table' if only else 'search', r['const'])
        if only:
            if [f for f in new if f != 'results/']:
                raise Violation('there are new files %r: %s' % (new, what))
            continue
        new = [f for f in new if f != 'results/']
        dirs = [f for f in new if f.endswith('/')]
        if len(dirs) != 1 or os.path.dirname(dirs[0][:-1]) != 'results' or \
                sorted(new) != sorted(dirs + [dirs[0] + f for f in ('results.csv', 'config.ini', 'results.pdf')]):
            raise Violation('the new files are %r: %s' % (new, what))
        d = dirs[0]
        # the saved configuration
        again, raw = res['saved'][d + 'config.ini']
        if again[0] != 'ok':
            raise Violation('the saved configuration can\'t be loaded: %r: %s' % (again, what))
        first = res['config']
        for k in first:
            if k != 'hashtable_file' and again[1].get(k) != first[k]:
                raise Violation('the saved configuration has %s=%r instead of %r: %s' % (k, again[1].get(k), first[k], what))
        rawfile = [x['hashtable_file'] for x in raw.values() if 'hashtable_file' in x]
        if [os.path.normpath(x) for x in rawfile] != [tname]:
            raise Violation('the saved configuration has the table %r: %s' % (rawfile, what))
        # the results
        rows = res['csv'][d + 'results.csv']
        name = r['const'] + (', %d' % r['i'] if r['const'] in ('feig', 'percolation') else '')
        if not rows or rows[0] != ['target_name', name]:
            raise Violation('the results begin with %r: %s' % (rows[:1], what))
        rows = rows[2:]
        if res['docs'] != [[d + 'results', len(rows)]]:
            raise Violation('%d results, but the documents %r: %s' % (len(rows), res['docs'], what))
        s = Search(c, r, entries)
        seen = check_rows(s, rows, what, env)
        for ab, pf, p, identity in s.must():
            if any(x[1] == ab[1] and x[0] in (ab[0], minus(ab[0])) and x[2] in (pf, inverse(pf)) for x in seen):
                nontrivial = nontrivial or identity
                continue
            if not identity:
                kind = env.ok('cf_approach', a=ab[0], b=ab[1])[0][0]
                if kind not in ('exp', 'super_exp'):
                    env.label('estimated otherwise')
                    continue
            raise Violation('%r is not among the results %r: %s' % ((ab, pf, p), rows, what))
        # the same search gives the same results, whether the table was just made or loaded
        k = repr((sorted(e for e in entries), r['lhs'], r['const'], r['i'], r['prec']))
        if sorted(rows) != results.setdefault(k, sorted(rows)):
            raise Violation('the same search gave %r before, and now %r: %s' % (results[k], rows, what))
    env.nontrivial(nontrivial)


@st.composite
def help_case(draw):
    return [draw(st.sampled_from(['-h', '--help', '/?', '-?']))] + draw(st.lists(st.sampled_from(['config.ini', '4']),
                                                                               max_size=1))


def check_help(c, env):
    r, same, _ = env.ok('usage', name='main.py', argv=c, files=['config.ini', 'results/x'])
    if r[0] != 'ok' or not same or 'usage' not in r[1].lower():
        raise Violation('main.py %s: %r%s' % (' '.join(c), r, '' if same else ', and files are changed'))
    env.nontrivial()


EXAMPLES = [
    # near zeta(3)/6, and converges faster than geometrically
    {'hp': 3, 'iters': 150, 'cli': [], 'table': 'table', 'runs': [
        {'op': 'generate', 'only': 'false', 'const': 'zeta', 'i': 3, 'cls': 'normal', 'special': None, 'pfs': [1],
         'ra': [[[5, 6], [27, 28], [51, 52], [34, 35]]], 'rb': [[[0, 1], [0, 1], [-1, 0]]], 'print': False,
         'lhs': ['ulcd', [[0, 1], [6, 7], [0, 1], 2]], 'prec': [300, 3, 300, 3, 400, 1]}]}]
PARTS = [Part('runs', case(), check, 900, examples=EXAMPLES), Part('help', help_case(), check_help, 20, shards=1)]
