"""The operations a worker runs on the code under test (in the repository's interpreter).  They only drive the public
interface and encode what came out; every judgement is made by the checks."""
import copy
import csv
import io
import itertools
import json
import marshal
import os
import pickle as std_pickle
import shutil
import sys
import tempfile
import types
from fractions import Fraction

import mpmath
from mpmath import mpf, mp

SCRATCH = os.environ['VERIF_SCRATCH']
OPS = {}


class HarnessError(Exception):
    pass


def op(f):
    OPS[f.__name__] = f
    return f


def run(name, args):
    if name not in OPS:
        raise HarnessError('no such operation: %s' % name)
    try:
        # importing it sets the precision
        import enum_params  # noqa: F401
    except Exception:
        pass
    mp.dps = args.pop('dps', 50)
    os.chdir(SCRATCH)
    return OPS[name](**args)


# ---------------------------------------------------------------------------------------------------- encoding

def enc(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return {'f': repr(x)}
    if isinstance(x, Fraction):
        return {'q': [x.numerator, x.denominator]}
    if isinstance(x, mpmath.mpf):
        if mpmath.isnan(x):
            return {'m': 'nan'}
        if mpmath.isinf(x):
            return {'m': 'inf' if x > 0 else '-inf'}
        sign, man, exp, _ = x._mpf_
        return {'m': [int(sign), int(man), int(exp)]}
    if isinstance(x, mpmath.mpc):
        return {'c': [enc(x.real), enc(x.imag)]}
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {'d': [[enc(k), enc(v)] for k, v in x.items()]}
    return {'other': type(x).__name__ + ': ' + str(x)[:200]}


def dec(x):
    """Numbers in arguments: ints as they are, {'s': text} an mpf, {'q': [n, d]} a Fraction, {'f': repr} a float."""
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if 's' in x:
            return mpf(x['s'])
        if 'q' in x:
            return Fraction(*x['q'])
        if 'f' in x:
            return float(x['f'])
    return x


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def catch(f):
    """Runs f, returns ['ok', value] or ['exc', type, message]."""
    try:
        return ['ok', f()]
    except HarnessError:
        raise
    except Exception as e:
        return ['exc', type(e).__name__, str(e)[:300]]


def script(name, argv):
    """Runs a program of the repository as from the command line; returns like catch, with what it printed."""
    import contextlib
    import runpy
    shown = io.StringIO()
    saved = sys.argv
    sys.argv = [name] + [str(x) for x in argv]

    def do():
        try:
            with contextlib.redirect_stdout(shown):
                runpy.run_path(os.path.join(os.environ['VERIF_REPO'], name), run_name='__main__')
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError('exit status %r' % (e.code,))
        return shown.getvalue()
    try:
        return catch(do)
    finally:
        sys.argv = saved


@op
def usage(name, argv, files=()):
    """What a program called like this prints and writes."""
    fix_dill()
    with Documents(), TempDir() as top:
        touch(files)
        before = snapshot(top)
        with NoLaunch() as n:
            r = script(name, argv)
        return r, snapshot(top) == before, n.commands


class TempDir:
    """A scratch directory that is the working directory while in use."""
    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=SCRATCH)
        os.chdir(self.path)
        return self.path

    def __exit__(self, *exc):
        os.chdir(SCRATCH)
        shutil.rmtree(self.path, ignore_errors=True)


_fixed = []


def fix_dill():
    """The installed dill (0.2.8.2) predates this interpreter's code objects and can't load the lambdas it saves. Saves
    code objects by marshal instead; nothing of the repository is concerned."""
    if _fixed:
        return
    _fixed.append(1)
    import dill

    def save_code(pickler, obj):
        pickler.save_reduce(marshal.loads, (marshal.dumps(obj),), obj=obj)
    for mod in (dill, getattr(dill, 'dill', None), getattr(dill, '_dill', None)):
        if mod is not None and hasattr(mod, 'Pickler'):
            mod.Pickler.dispatch[types.CodeType] = save_code


# ---------------------------------------------------------------------------------------------------- cont_fracs

@op
def cf_history(objs, steps):
    """objs: constructor arguments. steps: [object index, method, ...]. Returns what each step gave."""
    import cont_fracs
    made = []
    out = []
    for o in objs:
        kw = {}
        if o.get('first') is not None:
            kw['first_iter_matrix'] = tup(o['first'])
        if o.get('values') is not None:
            av, bv = o['values']
            kw['iter_promo_matrix_generator'] = lambda i, a, b, pc, av=av, bv=bv: (av[i], bv[i])
        if o.get('target') is not None:
            kw['target_val'] = mpf(o['target'])
        if o.get('share') is not None:
            # the very same lists as another object's
            o['a'], o['b'] = objs[o['share']]['a'], objs[o['share']]['b']
        made.append(cont_fracs.ContFrac(o['a'], o['b'], avoid_zero_b=o['avoid'], logging=o['logging'], **kw))
    for st in steps:
        cf = made[st[0]]
        m = st[1]
        pc = {'print_calc': True} if objs[st[0]].get('print') else {}

        def do():
            if m == 'gen':
                cf.gen_iterations(st[2], **({'accuracy': mpf(st[3])} if len(st) > 3 and st[3] else {}), **pc)
            elif m == 'gen_nofin':
                cf.gen_iterations(st[2], exec_finalize=False, **pc)
            elif m == 'add':
                cf.add_iterations(st[2], **pc)
            elif m == 'add_nofin':
                cf.add_iterations(st[2], exec_finalize=False, **pc)
            elif m == 'reinit':
                kw = {}
                if st[2] is not None:
                    kw['a_coeffs'] = st[2]
                if st[3] is not None:
                    kw['b_coeffs'] = st[3]
                cf.reinitialize(**kw)
            elif m == 'dps':
                mp.dps = st[2]
            elif m == 'result':
                return enc(cf.get_result())
            elif m == 'pq':
                return enc(list(cf.get_p_q()))
            elif m == 'valid':
                return bool(cf.is_result_valid())
            elif m == 'count':
                return cf.get_num_of_executed_iters()
            elif m == 'fast':
                cf.is_convergence_fast()
            elif m == 'compare':
                kw = {}
                if st[2] is not None:
                    kw['target_val'] = mpf(st[2])
                if st[3] is not None:
                    kw['calc_abs'] = st[3]
                return enc(cf.compare_result(**kw))
            else:
                raise HarnessError(m)
        out.append(catch(do))
    return out


@op
def cf_eval(how, a, b, depth=None, iters=None):
    import cont_fracs
    a, b = dec(a), dec(b)

    def do():
        if how == 'lists':
            return enc(cont_fracs.eval_contfrac(a, b))
        if how == 'lists_nob':
            return enc(cont_fracs.eval_contfrac(a))
        if how == 'polys':
            return enc(cont_fracs.eval_contfrac_by_polys(a, b, depth))
        if how == 'dec_polys':
            return enc(cont_fracs.eval_dec_contfrac_by_polys(a, b, depth))
        if how == 'object':
            cf = cont_fracs.ContFrac(a, b, avoid_zero_b=False)
            cf.gen_iterations(depth - 1)
            return enc(cf.get_result())
        raise HarnessError(how)
    # twice, on the same lists
    return [catch(do), catch(do)]


# ---------------------------------------------------------------------------------------------------- enumerations

def poly_class(name):
    import enum_poly_params
    return enum_poly_params.AB_POLYS_TYPES[name]


@op
def enum_polys(cls, range_a, range_b, kw, limit=20000):
    pe = poly_class(cls)(**kw)
    gen, est = pe.polys_generator(range_a=range_a, range_b=range_b)
    out = []
    for item in gen:
        if len(item) == 3:
            cf, pa, pb = item
            out.append([enc(pa), enc(pb), enc(cf.get_result())])
        else:
            out.append([enc(item[0]), enc(item[1])])
        if len(out) > limit:
            return {'est': enc(est), 'items': out, 'overflow': True}
    return {'est': enc(est), 'items': out, 'dps': mp.dps}


@op
def enum_lhs(kind, params, target, limit=60000, tuples=False):
    import lhs_evaluators
    if tuples:
        params = tup(params)
    if tuples == 'range' and kind == 'ulcd':
        params = [range(*r) if isinstance(r, tuple) and len(r) in (2, 3) else r for r in params]
    en = lhs_evaluators.LHS_TYPES[kind]['enum'](params, mpf(target))
    ev = lhs_evaluators.LHS_TYPES[kind]['eval']
    out = []
    ok_type = True
    for o in en.generator():
        ok_type = ok_type and isinstance(o, ev)
        out.append([enc(o.get_params()), enc(o.get_val())])
        if len(out) > limit:
            break
    return {'len': len(en), 'items': out, 'type_ok': ok_type}


# ---------------------------------------------------------------------------------------------------- left-hand sides

def make_lhs(kind, params, target):
    import lhs_evaluators
    return lhs_evaluators.LHS_TYPES[kind]['eval'](tup(params), target)


def lhs_kind(o):
    return str(type(o))


def show_lhs(o):
    return {'type': lhs_kind(o), 'params': enc(o.get_params()), 'val': enc(o.get_val())}


@op
def lhs_history(kind, params, target, steps):
    """A pool of evaluators, grown by copying. Returns the state of every one after each step."""
    pool = [make_lhs(kind, params, mpf(target))]
    out = [[show_lhs(o) for o in pool]]
    for st in steps:
        o = pool[st[0]]
        m = st[1]
        ret = None
        if m == 'flip':
            o.flip_sign()
        elif m == 'add':
            o.add_int(st[2])
        elif m == 'reinit':
            o.reinit_params(tup(st[2]))
        elif m == 'copy':
            pool.append(type(o)(o))
        elif m == 'canon':
            o.canonalize_params()
        elif m == 'degenerate':
            ret = bool(o.is_degenerate())
        elif m == 'rebuild':
            ret = enc(type(o)(o.get_params(), o.get_target_const()).get_val())
        elif m == 'latex':
            ret = o.get_latex_exp(st[2])
        elif m == 'target':
            ret = enc(o.get_target_const())
        else:
            raise HarnessError(m)
        out.append([ret, [show_lhs(o) for o in pool]])
    return out


# ---------------------------------------------------------------------------------------------------- decimal table

@op
def table_history(accuracy, steps):
    from decimal_hashtable import DecimalHashTable
    tables = [DecimalHashTable(accuracy)]
    out = []

    def key(k):
        if isinstance(k, dict) and 's' in k:
            return mpf(k['s'])
        if isinstance(k, dict) and 'raw' in k:
            return {'int': 5, 'float': 0.5, 'tuple': (1, 2), 'none': None}[k['raw']]
        return k
    for st in steps:
        t = tables[0]
        m = st[0]

        def do():
            if m == 'set':
                t[key(st[1])] = st[2]
            elif m == 'getitem':
                return t[key(st[1])]
            elif m == 'in':
                return key(st[1]) in t
            elif m == 'notin':
                return key(st[1]) not in t
            elif m == 'get':
                return t.get(key(st[1]))
            elif m == 'getd':
                return t.get(key(st[1]), st[2])
            elif m == 'setdefault':
                return t.setdefault(key(st[1]), st[2])
            elif m == 'append':
                t.setdefault(key(st[1]), []).append(st[2])
            elif m == 'del':
                del t[key(st[1])]
            elif m == 'accuracy':
                t.update_accuracy(st[1])
            elif m == 'dps':
                mp.dps = st[1]
            elif m == 'len':
                return len(t)
            elif m == 'items':
                return sorted(([k, v] for k, v in t.items()), key=repr)
            elif m == 'values':
                return sorted((v for v in t.values()), key=repr)
            elif m == 'pickle':
                how = st[1]
                if how == 'dill':
                    import dill
                    tables[0] = dill.loads(dill.dumps(t, protocol=st[2]))
                else:
                    tables[0] = std_pickle.loads(std_pickle.dumps(t, protocol=st[2]))
                return type(tables[0]).__name__
            elif m == 'copy':
                tables[0] = copy.deepcopy(t)
            else:
                raise HarnessError(m)
        out.append(copy.deepcopy(catch(do)))
    return out


# ---------------------------------------------------------------------------------------------------- MITM

def target_gen(spec):
    """A constant by name (with an index), or any value."""
    import gen_consts
    from functools import partial
    if isinstance(spec, dict):
        val = spec['value']
        return ValueGen(val)
    if isinstance(spec, list):
        return partial(getattr(gen_consts, 'gen_%s_consts' % spec[0]), spec[1])
    return getattr(gen_consts, 'gen_%s_const' % spec)


class ValueGen:
    def __init__(self, val):
        self.val = val

    def __call__(self):
        return mpf(self.val)


def show_params(filtered):
    out = []
    for p in filtered:
        ab, lhs, pf, conv = p
        out.append({'ab': enc(ab), 'lhs': show_lhs(lhs), 'pf': enc(pf), 'conv': enc(conv)})
    return out


def read_params(lst, target):
    out = []
    for p in lst:
        out.append((tup(p['ab']), make_lhs(p['lhs'][0], p['lhs'][1], target), p['pf'], tup(dec(p.get('conv')))))
    return out


def show_table(t):
    out = []
    for k, v in t.items():
        if k == 'parameters':
            continue
        out.append([k, enc(v)])
    return out


class MitmSession:
    def __init__(self):
        self.objs = {}

    def step(self, st):
        import enum_params
        m = st[0]
        ob = 0
        if isinstance(m, int):
            ob, m, st = m, st[1], st[1:]
        if m == 'new':
            o = st[1]
            kw = dict(target_generator=target_gen(o['target']), target_name=o.get('name', 'x'),
                      postproc_funcs_filter=o['pfs'], trunc_integer=o.get('trunc', True), hashtable_prec=o['hp'],
                      ab_poly_class=poly_class(o.get('cls', 'normal')), ab_poly_special_params=o.get('special'),
                      num_of_iterations=o['iters'], prec=o.get('prec', 50))
            if 'exp_conv' in o:
                kw['enum_only_exp_conv'] = o['exp_conv']
            self.objs[ob] = enum_params.MITM(**kw)
            return None
        if m == 'dps':
            mp.dps = st[1]
            return None
        if m == 'consts':
            return {'dps': mp.dps}
        if m == 'join':
            self.objs[ob].dec_hashtable.append_dict(self.objs[st[1]].dec_hashtable)
            return None
        if m == 'pickle':
            fix_dill()
            import dill
            self.objs[st[1] if len(st) > 1 else ob] = dill.loads(dill.dumps(self.objs[ob],
                                                                            protocol=dill.HIGHEST_PROTOCOL))
            return None
        x = self.objs[ob]
        if m == 'redefine':
            o = st[1]
            kw = dict(target_generator=target_gen(o['target']), target_name=o.get('name', 'x'),
                      postproc_funcs_filter=o['pfs'], trunc_integer=o.get('trunc', True), hashtable_prec=o['hp'],
                      ab_poly_class=poly_class(o.get('cls', 'normal')), ab_poly_special_params=o.get('special'),
                      prec=o.get('prec', 50))
            x.redefine_settings(**kw)
        elif m == 'build':
            x.build_hashtable(range_a=st[1], range_b=st[2], validate_entry_doesnt_exist=st[3] if len(st) > 3 else True)
        elif m == 'find':
            import lhs_evaluators
            x.find_clicks(lhs_evaluators.LHS_TYPES[st[1]], st[2])
        elif m == 'refine':
            x.refine_clicks_with_const_num_of_iters(accuracy=st[1], num_of_iterations=st[2],
                                                    **({'print_clicks': True} if st[3:] == [True] else {}))
        elif m == 'refine_conv':
            x.refine_clicks_with_convergence_info(accuracy=st[1], num_of_iterations=st[2],
                                                  **({'print_clicks': True} if st[3:] == [True] else {}))
        elif m == 'uniq':
            x.filter_uniq_params()
        elif m == 'posroots':
            x.filter_pos_integer_roots_numerators()
        elif m == 'exp':
            x.filter_only_exp_convergence(st[1] if len(st) > 1 else False)
        elif m == 'approach':
            x.filter_clicks_by_approach_type(whitelist=st[1], blacklist=st[2])
        elif m == 'set':
            x.filtered_params = read_params(st[1], x.target_generator())
        elif m == 'get':
            return show_params(x.get_filtered_params())
        elif m == 'count':
            return len(x.get_filtered_params())
        elif m == 'table':
            return show_table(x.dec_hashtable)
        elif m == 'lookup':
            return enc(x.dec_hashtable.get(mpf(st[1])))
        elif m == 'params':
            # as runs do before they save the table
            import postprocfuncs
            x.dec_hashtable['parameters'] = {'target_generator': x.target_generator, 'target_name': x.target_name,
                                             'POSTPROC_FUNCS': postprocfuncs.EVALUATED_POSTPROC_FUNCS}
        elif m == 'entries':
            # entries stored by earlier versions of the enumeration
            for k, ab, pf in st[1]:
                x.dec_hashtable.setdefault(mpf(k), []).append((tup(ab), pf))
        elif m == 'has_params':
            return 'parameters' in x.dec_hashtable
        elif m == 'history':
            return [x.dec_hashtable.accuracy, list(x.dec_hashtable.accuracy_history)]
        elif m == 'reset':
            x.reset_hashtable()
        elif m == 'eqns':
            import postprocfuncs
            kw = {} if len(st) < 3 else {'ignore_zerob_exceptions': st[2]}
            return x.get_results_as_eqns(postprocfuncs.POSTPROC_FUNCS, depth=st[1], **kw)
        elif m == 'rebuild':
            out = []
            for p in x.get_filtered_params():
                cf, val, lhs = x.build_contfrac_from_params(p, iterations=st[1])
                out.append([enc(cf.get_result()), enc(val), show_lhs(lhs)])
            return out
        elif m == 'csv':
            with TempDir() as d:
                fn = os.path.join(d, 'out.csv')
                x.export_to_csv(fn)
                with open(fn, newline='') as f:
                    text = f.read()
                return {'text': text, 'rows': list(csv.reader(io.StringIO(text)))}
        else:
            raise HarnessError(m)
        return None


@op
def mitm(steps):
    """Runs the steps on search objects; returns what each gave (an exception ends it)."""
    s = MitmSession()
    return [s.step(st) for st in steps]


@op
def mitm_dump(steps, protocol=-1):
    """Runs the steps, and saves search object 0 as the runs do."""
    fix_dill()
    import base64
    import dill
    s = MitmSession()
    out = [s.step(st) for st in steps]
    return [out, base64.b64encode(dill.dumps(s.objs[0], protocol=protocol)).decode()]


@op
def mitm_load(data, steps):
    fix_dill()
    import base64
    import dill
    s = MitmSession()
    s.objs[0] = dill.loads(base64.b64decode(data))
    return [s.step(st) for st in steps]


@op
def mitm_try(steps):
    s = MitmSession()
    return [catch(lambda st=st: s.step(st)) for st in steps]


def snapshot(top):
    """Contents of all the files under a directory."""
    import hashlib
    out = {}
    for dirpath, dirs, files in os.walk(top):
        for d in dirs:
            out[os.path.relpath(os.path.join(dirpath, d), top) + '/'] = None
        for f in files:
            p = os.path.join(dirpath, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, top)] = hashlib.sha1(fh.read()).hexdigest()
    return out


@op
def join(parts, extra, output, existing, after, cli=False):
    """Saves the parts (each a name and the steps that make it), joins their directory, and looks at what came out."""
    fix_dill()
    import dill
    import join_hashtables
    with TempDir() as top:
        os.makedirs('tables')
        os.makedirs('out')
        shown = []
        for name, steps in parts:
            s = MitmSession()
            shown.append([s.step(st) for st in steps][-1])
            with open(os.path.join('tables', name), 'wb') as f:
                dill.dump(s.objs[0], f, protocol=dill.HIGHEST_PROTOCOL)
        for name in extra:
            with open(os.path.join('tables', name), 'w') as f:
                f.write('no table')
        if existing:
            with open(output, 'wb') as f:
                f.write(b'precious')
        before = snapshot(top)
        if cli:
            how = script('join_hashtables.py', ['tables'] + [output] * (output != 'joined_hashtable.pkl'))
        else:
            how = catch(lambda: join_hashtables.main('tables', output))
        files = snapshot(top)
        res = {'parts': shown, 'how': how, 'before': before, 'files': files, 'after': None}
        if how[0] == 'ok' and not existing and os.path.exists(output):
            s = MitmSession()
            with open(output, 'rb') as f:
                s.objs[0] = dill.load(f)
            res['after'] = [s.step(st) for st in after]
        return res


@op
def append_tables(tables, steps):
    """Tables (each a list of entries and changes of accuracy) appended to each other in memory; all of them after every step."""
    from decimal_hashtable import DecimalHashTable
    objs = []
    for first, todo in tables:
        t = DecimalHashTable(first)
        for k, v in todo:
            if k is None:
                t.update_accuracy(v)
            else:
                t[k if k.isalpha() else mpf(k)] = list(v)
        objs.append(t)

    def look():
        return [[sorted(([k, list(v)] for k, v in t.items()), key=repr), t.accuracy, list(t.accuracy_history)] for t in objs]
    out = [look()]
    for i, j in steps:
        out.append([catch(lambda: objs[i].append_dict(objs[j])), look()])
    return out


@op
def fix_table(name, steps, after, cli=False):
    """Saves what the steps made, runs the repair tool on it, and looks at what came out."""
    fix_dill()
    import dill
    import fix_hashtable_filter_init_b_root as tool
    with TempDir() as top:
        os.makedirs(os.path.dirname(name) or '.', exist_ok=True)
        s = MitmSession()
        shown = [s.step(st) for st in steps]
        with open(name, 'wb') as f:
            dill.dump(s.objs[0], f, protocol=dill.HIGHEST_PROTOCOL)
        before = snapshot(top)
        how = script('fix_hashtable_filter_init_b_root.py', [name]) if cli else catch(lambda: tool.main(name))
        files = snapshot(top)
        new = sorted(set(files) - set(before))
        res = {'shown': shown, 'how': how, 'before': before, 'files': files, 'new': new, 'after': None}
        if how[0] == 'ok' and len(new) == 1:
            s = MitmSession()
            with open(new[0], 'rb') as f:
                s.objs[0] = dill.load(f)
            res['after'] = [s.step(st) for st in after]
        return res


# ---------------------------------------------------------------------------------------------------- post-functions

@op
def postfuncs(xs):
    """Everything postprocfuncs declares, and the functions at the given arguments."""
    dps = mp.dps
    import postprocfuncs as p
    mp.dps = dps
    args = [mpf(x) for x in xs]
    out = []
    for f in p.EVALUATED_POSTPROC_FUNCS:
        out.append([catch(lambda: enc(f(x))) for x in args])
    return {'args': [enc(x) for x in args], 'values': out, 'texts': list(p.POSTPROC_FUNCS),
            'pairs': sorted(list(x) for x in p.INVERSE_POSTPROC_PAIRS), 'dps': mp.dps,
            'latex': [list(p.POSTPROC_FUNCS_LATEX[t]('Y', 'X')) for t in p.POSTPROC_FUNCS]}


# ---------------------------------------------------------------------------------------------------- constants

@op
def consts(start, requests):
    """requests: [name, index or None, precision or None, how the precision is given]."""
    import gen_consts
    mp.dps = start
    out = []
    for name, i, prec, how in requests:
        if name == 'dps':
            mp.dps = prec
            out.append(None)
            continue
        f = getattr(gen_consts, 'gen_%s_const%s' % (name, '' if i is None else 's'))
        pos, kw = ([] if i is None else [i]), {}
        if how == 'kw':
            kw['prec'] = prec
        elif how == 'pos':
            pos.append(prec)
        out.append([catch(lambda: enc(f(*pos, **kw))), mp.dps])
    return out


# ---------------------------------------------------------------------------------------------------- utils

@op
def gcds(kind, pairs):
    from decimal import Decimal
    from utils import MathOperations
    conv = {'int': int, 'mpf': mpf, 'fraction': Fraction, 'decimal': Decimal}[kind]
    out = []
    for a, b in pairs:
        r = catch(lambda: MathOperations.gcd(conv(a), conv(b)))
        if r[0] == 'ok':
            r = ['ok', int(r[1]), r[1] == int(r[1])]
        out.append(r)
    return out


@op
def subs(cases):
    from utils import MathOperations
    return [catch(lambda: enc(MathOperations.subs_in_polynom(dec(c), dec(x)))) for c, x in cases]


@op
def group(how, seq, n, fill):
    from utils import grouper
    seq = {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda s: (x for x in s)}[how](seq)
    kw = {} if fill == 'unset' else {'fillvalue': fill}
    return [list(g) for g in grouper(seq, n, **kw)]


class FakeClock:
    """Stands in for the clock while utils is imported anew (to nobody else's harm)."""
    names = ('time', 'monotonic', 'perf_counter')

    def __init__(self, now):
        self.now = now

    def __enter__(self):
        import importlib.util
        import time
        self.saved = {n: getattr(time, n) for n in self.names}
        for n in self.names:
            setattr(time, n, lambda: self.now)
        spec = importlib.util.spec_from_file_location('utils_fresh', os.path.join(os.environ['VERIF_REPO'], 'utils.py'))
        self.utils = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.utils)
        return self

    def __exit__(self, *exc):
        import time
        for n, f in self.saved.items():
            setattr(time, n, f)


@op
def progress(how, seq, kw, clock):
    """Wraps the sequence, with the clock moving (anyhow) between the elements."""
    with FakeClock(1000.0) as c:
        src = {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda s: (x for x in s)}[how](seq)

        def do():
            out = []
            it = c.utils.ProgressBar(src, **kw)
            if iter(it) is not it:
                raise AssertionError('not an iterator')
            for k, x in enumerate(it):
                out.append(enc(x))
                c.now += clock[k % len(clock)]
                if k > len(seq) + 5:
                    break
            try:
                next(it)
                out.append('more')
            except StopIteration:
                pass
            return out
        import contextlib
        import io
        shown = io.StringIO()
        with contextlib.redirect_stdout(shown):
            res = catch(do)
        return res, shown.getvalue()


@op
def stopwatch(start, steps):
    with FakeClock(start) as c:
        m = c.utils.MeasureRuntime()
        out = []
        for st in steps:
            if st[0] == 'wait':
                c.now += st[1]
                out.append(None)
                continue
            f = {'start': m.start_measure, 'measure': m.measure_time, 'total': m.get_total_runtime,
                 'last': m.get_last_measured_time, 'started': m.is_started}[st[0]]
            out.append(catch(f))
        return out


# ---------------------------------------------------------------------------------------------------- latex

@op
def latex_doc(eqns):
    """The document generate_latex makes (rendering it needs a LaTeX installation, and is left out)."""
    import latex
    import pylatex
    made = []

    def stub(self, filepath=None, *args, **kw):
        made.append([filepath, self.dumps()])
    saved = pylatex.Document.generate_pdf
    pylatex.Document.generate_pdf = stub
    try:
        latex.generate_latex('somewhere/results', eqns)
    finally:
        pylatex.Document.generate_pdf = saved
    return made


@op
def latex_cf(a, b):
    import latex
    return latex.latex_cont_frac(a, b)


# ---------------------------------------------------------------------------------------------------- configurations

def show_config(config):
    import enum_poly_params
    import lhs_evaluators
    out = {}
    for k, v in config.items():
        if k == 'ab_polys_type' and v is not None:
            v = [n for n, c in enum_poly_params.AB_POLYS_TYPES.items() if c is v]
        elif k == 'lhs_type' and v is not None:
            v = [n for n, c in lhs_evaluators.LHS_TYPES.items() if c is v or c == v]
        out[k] = ['bool', v] if isinstance(v, bool) else (['dict', str(v)] if isinstance(v, dict) else [
            type(v).__name__, json.loads(json.dumps(v)) if isinstance(v, (list, int, str, float)) else None])
    return out


def write_config(config, path):
    """As runs do beside their results."""
    from configfile import ConfigParser, CONFIG_PARAMS_TYPES
    out = ConfigParser()
    out.add_section('Setup')
    for k in CONFIG_PARAMS_TYPES:
        out.set('Setup', k, ConfigParser.param_to_string(config[k]))
    with open(path, 'w') as f:
        out.write(f)


def touch(names):
    for n in names:
        if os.path.dirname(n):
            os.makedirs(os.path.dirname(n), exist_ok=True)
        if n.endswith('/'):
            continue
        with open(n, 'w') as f:
            f.write('content of %s' % n)


@op
def config(text, files=(), rewrite=True, name='the_config.ini'):
    from configfile import ConfigParser
    with TempDir() as top:
        touch(files)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, 'w') as f:
            f.write(text)
        before = snapshot(top)

        def do():
            c = ConfigParser(configfile=name).get_config()
            res = {'config': show_config(c)}
            if rewrite:
                write_config(c, 'again.ini')
                res['again'] = show_config(ConfigParser(configfile='again.ini').get_config())
                os.unlink('again.ini')
            return res
        r = catch(do)
        return {'res': r, 'same_files': snapshot(top) == before}


@op
def table_names(steps, text):
    """Successive runs over a directory. steps: ['touch', names] | ['remove', name] | [operation, table name]"""
    from configfile import ConfigParser
    out = []
    with TempDir():
        for s in steps:
            if s[0] == 'touch':
                touch(s[1])
                out.append(None)
                continue
            if s[0] == 'remove':
                if os.path.exists(s[1]):
                    os.unlink(s[1])
                out.append(None)
                continue
            with open('c.ini', 'w') as f:
                f.write(text % (s[0], s[1]))

            def do():
                fn = ConfigParser(configfile='c.ini').get_config()['hashtable_file']
                saved = fn
                if s[0] == 'expand':
                    saved = ConfigParser.next_hashtable_version(fn)
                return [fn, saved]
            r = catch(do)
            existed = None
            if r[0] == 'ok':
                existed = [os.path.exists(x) for x in r[1]]
                if s[0] != 'use' and s[2]:
                    touch([r[1][1]])
            listing = sorted(os.path.normpath(os.path.join(d, f)) for d, _, fs in os.walk('.') for f in fs)
            out.append([r, existed, listing])
    return out


@op
def distribute(num, name, text, files=(), cli=False):
    """Distributes a configuration, and loads what came out."""
    import distribute_run
    from configfile import ConfigParser
    with TempDir() as top:
        touch(files)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, 'w') as f:
            f.write(text)
        before = snapshot(top)
        original = show_config(ConfigParser(configfile=name).get_config())
        if cli:
            # by default, into four, and config.ini
            r = script('distribute_run.py', [] if (num, name) == (4, 'config.ini') else
                       [num] + [name] * (name != 'config.ini'))
            r = r if r[0] == 'exc' else ['ok', None]
        else:
            r = catch(lambda: distribute_run.main(num, name))
        after = snapshot(top)
        new = sorted(f for f in set(after) - set(before))
        parts = {}
        for f in new:
            if not f.endswith('/'):
                parts[f] = catch(lambda: show_config(ConfigParser(configfile=f).get_config()))
        return {'how': r, 'original': original, 'new': new, 'parts': parts,
                'kept': all(after.get(k) == v for k, v in before.items())}


class NoLaunch:
    """Records what would be launched."""
    def __enter__(self):
        import subprocess
        self.commands = []
        self.saved = [(os, n, getattr(os, n)) for n in ('system', 'popen')] + [
            (subprocess, n, getattr(subprocess, n)) for n in ('Popen', 'call', 'run', 'check_call', 'check_output')]

        def record(cmd, *args, **kw):
            self.commands.append(cmd if isinstance(cmd, str) else ' '.join(str(x) for x in cmd))
            return 0
        # however the module calls them (import os, from os import system)
        module = sys.modules.get('run_distributed_configs')
        originals = [f for _, _, f in self.saved]
        self.saved += [(module, n, f) for n, f in list(vars(module or object).items()) if f in originals]
        for m, n, _ in self.saved:
            setattr(m, n, record)
        return self

    def __exit__(self, *exc):
        for m, n, f in self.saved:
            setattr(m, n, f)


@op
def launch(directory, files, cli=False):
    import run_distributed_configs
    with TempDir() as top:
        touch(files)
        before = snapshot(top)
        with NoLaunch() as n:
            r = script('run_distributed_configs.py', [directory]) if cli else catch(
                lambda: run_distributed_configs.main(directory))
        return {'how': r, 'commands': n.commands, 'same_files': snapshot(top) == before}


# ---------------------------------------------------------------------------------------------------- convergence

@op
def cf_fast(a, b, kw):
    """Is it classified as fast converging? (twice, the second time after other iterations of the same object)"""
    import cont_fracs
    cf = cont_fracs.ContFrac(a, b)
    out = [catch(lambda: bool(cf.is_convergence_fast(**kw)))]
    catch(lambda: cf.gen_iterations(17))
    out.append(catch(lambda: bool(cf.is_convergence_fast(**kw))))
    out.append(cf.get_num_of_executed_iters())
    return out


@op
def cf_approach(a, b, goals=(), info=None, was=None):
    """The estimated kind and rate of convergence, and what iterating with accuracy goals [n, accuracy] does with it (or
    with the info given instead)."""
    import cont_fracs
    if was is None:
        cf = cont_fracs.ContFrac(a, b)
    else:
        # the same object has served for another one
        cf = cont_fracs.ContFrac(was['a'], was['b'])
        cf.estimate_approach_type_and_params()
        for n, acc in was['goals']:
            cf.gen_iterations(n, mpf(acc))
        cf.reinitialize(a, b)
    if info is None:
        # what was known of the other one is not known of this one
        if was is None or not was['now']:
            cf.estimate_approach_type_and_params()
    else:
        cf.set_approach_type_and_params((info[0], tup(dec(info[1]))))
    out = [enc(cf.get_approach_type_and_params())]
    for n, acc in goals:
        cf.gen_iterations(n, mpf(acc))
        out.append([cf.get_num_of_executed_iters(), enc(cf.get_result())])
    return out


# ---------------------------------------------------------------------------------------------------- whole runs

class Documents:
    """Rendering a document needs a LaTeX installation: a file with its source stands for it."""
    def __enter__(self):
        import pylatex
        self.docs = docs = []

        def stub(self, filepath=None, *args, **kw):
            docs.append([filepath, self.dumps()])
            with open(filepath + '.pdf', 'w') as f:
                f.write(docs[-1][1])
        self.saved = pylatex.Document.generate_pdf
        pylatex.Document.generate_pdf = stub
        return docs

    def __exit__(self, *exc):
        import pylatex
        pylatex.Document.generate_pdf = self.saved


class Canceller:
    """Sends a KeyboardInterrupt (Ctrl-C) to the code while it says that it can be cancelled: from that message on until
    the directory of the results is made.  pick = [function, step]: within the function-th of the functions that were
    seen at work there, at its step-th step; None only counts."""
    def __init__(self, steps, pick):
        self.steps, self.fired, self.armed = {}, None, False
        self.at = None
        if pick is not None and steps:
            name = sorted(steps)[pick[0] % len(steps)]
            self.at = (name, pick[1] % steps[name])

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(REPO_DIR) or os.path.basename(name) == 'main.py':
            return None
        return self.step

    def step(self, frame, event, arg):
        if event == 'line' and self.armed:
            name = '%s %s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
            n = self.steps.get(name, 0)
            self.steps[name] = n + 1
            if self.fired is None and self.at == (name, n):
                self.fired = name
                self.disarm()
                raise KeyboardInterrupt()
        return self.step

    def disarm(self):
        self.armed = False
        sys.settrace(None)

    def write(self, text):
        if 'CAN BE CANCEL' in text.upper():
            self.armed = True
            sys.settrace(self.trace)
        return self.stdout.write(text)

    def __getattr__(self, name):
        return getattr(self.stdout, name)

    def __enter__(self):
        self.stdout, self.mkdir, self.makedirs = sys.stdout, os.mkdir, os.makedirs
        sys.stdout = self

        def mkdir(*args, **kw):
            self.disarm()
            return self.mkdir(*args, **kw)

        def makedirs(*args, **kw):
            self.disarm()
            return self.makedirs(*args, **kw)
        os.mkdir, os.makedirs = mkdir, makedirs
        return self

    def __exit__(self, *exc):
        self.disarm()
        sys.stdout, os.mkdir, os.makedirs = self.stdout, self.mkdir, self.makedirs


REPO_DIR = os.path.join(os.environ['VERIF_REPO'], '')


def one_run(top, name, docs, cancel=None, cli=False):
    """Runs the main program with a configuration file, and looks at what it did."""
    import dill
    import main
    from configfile import ConfigParser
    before = snapshot(top)
    loaded = ConfigParser(configfile=name).get_config()
    res = {'config': show_config(loaded), 'table_file': os.path.normpath(loaded['hashtable_file'])}
    del docs[:]
    mp.dps = 50

    def do():
        try:
            if cli:
                r = script('main.py', [name] * (name != 'config.ini'))
                if r[0] != 'ok':
                    raise RuntimeError('%s %s' % tuple(r[1:]))
            else:
                main.main(name)
        except KeyboardInterrupt:
            raise RuntimeError('the KeyboardInterrupt is not handled')
    if cancel is None:
        res['how'] = catch(do)
    else:
        with cancel:
            res['how'] = catch(do)
    after = snapshot(top)
    res['dps'] = mp.dps
    mp.dps = 50
    res['gone'] = [f for f in before if f not in after]
    res['changed'] = [f for f in before if f in after and after[f] != before[f]]
    res['new'] = sorted(set(after) - set(before))
    res['tables'], res['csv'], res['saved'] = {}, {}, {}
    for f in res['new']:
        if f.endswith('.pkl'):
            with open(f, 'rb') as fh:
                x = dill.load(fh)
            mp.dps = 50
            res['tables'][f] = show_table(x.dec_hashtable)
        elif f.endswith('.csv'):
            with open(f, newline='') as fh:
                res['csv'][f] = list(csv.reader(fh))
        elif f.endswith('.ini'):
            c = catch(lambda: ConfigParser(configfile=f).get_config())
            raw = ConfigParser()
            raw.read(f)
            if c[0] == 'ok':
                c = ['ok', show_config(c[1])]
            res['saved'][f] = [c, {s: dict(raw.items(s, raw=True)) for s in raw.sections()}]
    res['docs'] = [[f, text.count('begin{alignat')] for f, text in docs]
    return res


@op
def whole(runs, files=(), cli=()):
    """Successive runs of the main program in one directory, each a configuration's text."""
    fix_dill()
    out = []
    with Documents() as docs, TempDir() as top:
        touch(files)
        for n, text in enumerate(runs):
            name = 'run%d.ini' % n
            how = cli[n] if n < len(cli) else None
            if how == 'default':
                name = 'config.ini'
            with open(name, 'w') as f:
                f.write(text)
            out.append(one_run(top, name, docs, cli=how))
            if out[-1]['how'][0] != 'ok':
                break
    return out


@op
def cancelled(first, again, picks, files=()):
    """A run, and then the same on the saved table once more for each pick, cancelled there."""
    fix_dill()
    out = []
    with Documents() as docs, TempDir() as top:
        touch(files)
        steps = None
        for n, pick in enumerate([None] + picks):
            name = 'run%d.ini' % n
            with open(name, 'w') as f:
                f.write(again if n else first)
            c = Canceller(steps, pick)
            out.append(one_run(top, name, docs, c))
            out[-1]['fired'] = c.fired
            out[-1]['steps'] = len(c.steps)
            if not n:
                steps = c.steps
            if out[-1]['how'][0] != 'ok':
                break
    return out


@op
def distributed(text, num, name, search, whole_text, order, joined, files=(), cli=False):
    """Distributes a configuration and runs each part as it would be launched, joins the tables and searches the joint
    one; and, for comparison, runs the undivided configuration."""
    fix_dill()
    import dill
    import distribute_run
    import join_hashtables
    import run_distributed_configs
    res = {}
    with Documents() as docs, TempDir() as top:
        touch(files)
        with open(name, 'w') as f:
            f.write(text)
        before = snapshot(top)
        res['distribute'] = script('distribute_run.py', [num, name]) if cli else catch(
            lambda: distribute_run.main(num, name))
        if res['distribute'][0] != 'ok':
            return res
        dirs = [f for f in set(snapshot(top)) - set(before) if f.endswith('/')]
        res['dirs'] = dirs
        if len(dirs) != 1:
            return res
        with NoLaunch() as n:
            res['launch'] = script('run_distributed_configs.py', [dirs[0][:-1]]) if cli else catch(
                lambda: run_distributed_configs.main(dirs[0][:-1]))
        configs = sorted(os.path.normpath(c.replace('"', ' ').replace("'", ' ').split()[-1]) for c in n.commands)
        configs = [configs[i % len(configs)] for i in sorted(range(len(configs)), key=lambda i: order[i % len(order)])]
        res['configs'] = configs
        res['parts'] = [one_run(top, c, docs, cli=cli) for c in configs]
        if any(p['how'][0] != 'ok' for p in res['parts']):
            return res
        where = os.path.dirname(res['parts'][0]['table_file'])
        res['join'] = script('join_hashtables.py', [where, joined]) if cli else catch(
            lambda: join_hashtables.main(where, joined))
        if res['join'][0] != 'ok':
            return res
        with open(joined, 'rb') as fh:
            x = dill.load(fh)
        mp.dps = 50
        res['joined'] = show_table(x.dec_hashtable)
        for key, txt in (('search', search), ('whole', whole_text)):
            with open(key + '.ini', 'w') as f:
                f.write(txt)
            res[key] = one_run(top, key + '.ini', docs, cli=cli)
    return res
