import os

from hypothesis import strategies as st

import configcase as C
from pbt import Part, Violation

PROPERTY = 'C19'
RULE = ('random configurations of all the options, written in random order, spacing, letter case and sections with '
        'comments and unknown options, parsed, written back and parsed again; configurations with one illegal value; '
        'non-trivial: an optional option is left out, and the operation, polynomials or left-hand side are not the '
        'defaults of config.ini (for illegal ones: all but that one value is legal)')


@st.composite
def case(draw):
    c = draw(C.options())
    return {'options': c, 'text': draw(C.layout(c)),
            'files': draw(st.sampled_from([[], ['table_v2.pkl', 'T1.pkl', 'tables/t_v9.pkl', 'tables/t_v10.pkl']])),
            'name': draw(st.sampled_from(['the_config.ini', 'sub/My Config.ini', 'x.conf']))}


def compare(got, c, what, skip=()):
    want = {k: v[1:] for k, v in c.items()}
    for k, v in C.OPTIONAL.items():
        want.setdefault(k, v)
    for k, w in want.items():
        if k in skip or w[0] == 'path':
            continue
        if k not in got:
            raise Violation('%s is missing of %s' % (k, what))
        if got[k] != w:
            raise Violation('%s is %r instead of %r: %s' % (k, got[k], w, what))


def check(c, env):
    files = c['files'] + ['tables/other.pkl']
    r = env.ok('config', text=c['text'], files=files, name=c['name'])
    what = repr(c['text'])
    if not r['same_files']:
        raise Violation('parsing changed files: %s' % what)
    if r['res'][0] != 'ok':
        raise Violation('a legal configuration is refused, %r: %s' % (r['res'], what))
    got = r['res'][1]
    compare(got['config'], c['options'], what)
    fn = got['config']['hashtable_file']
    given = c['options']['hashtable_file'][0]
    if fn[0] != 'str' or os.path.dirname(os.path.normpath(fn[1])) != os.path.dirname(given):
        raise Violation('hashtable_file is %r instead of %s: %s' % (fn, given, what))
    compare(got['again'], c['options'], 'written back, ' + what)
    if got['again']['hashtable_file'] != fn:
        raise Violation('hashtable_file is %r, and %r when written back: %s' % (fn, got['again']['hashtable_file'], what))
    for k, v in got['config'].items():
        if k in c['options'] and got['again'].get(k) != v:
            raise Violation('%s is %r, and %r when written back: %s' % (k, v, got['again'].get(k), what))
    o = c['options']
    env.label('op ' + o['hashtable_file_operation'][2], 'lhs ' + o['lhs_type'][2][0], 'ab ' + o['ab_polys_type'][2][0])
    env.nontrivial(any(k not in o for k in C.OPTIONAL)
                   and (o['ab_polys_type'][2] != ['normal'] or o['lhs_type'][2] != ['rationalfunc']
                        or o['hashtable_file_operation'][2] != 'use'))


ILLEGAL = {
    'ab_polys_type': ['cubic', 'normals', 'sparse indexed', 'true', '1'],
    'lhs_type': ['ulc', 'rational', 'polynom', '2'],
    'hashtable_file_operation': ['generates', 'load', 'save', 'true', 'used'],
    'postproc_funcs_filter': ['["lambda x: x**7"]', '["safe_inverse", "sqrt"]', '["lambda x : x"]', '["lambda x: x", 1]'],
    'print_surprising_nonexp_contfracs': ['yes', '1', 'truee', 'on'],
    'validate_hashtable_extend_no_replication': ['no', '0', 'fals', 'off'],
    'is_test': ['maybe', 'y', '1'],
    'hashtable_precision': ['many', '3.5', '[3]'],
    'a_coeffs_range': ['[[[1, 2]]', '[[1 2]]', '(1, 2)'],
    'i': ['three', '1.5'],
}


@st.composite
def illegal_case(draw):
    c = draw(C.options())
    k = draw(st.sampled_from(sorted(ILLEGAL)))
    c[k] = [draw(st.sampled_from(ILLEGAL[k])), 'illegal', None]
    return {'options': c, 'text': draw(C.layout(c)), 'bad': k}


def illegal_check(c, env):
    r = env.ok('config', text=c['text'], files=['tables/other.pkl'], rewrite=False)
    if r['res'][0] != 'exc':
        raise Violation('%s=%s is accepted, as %r' % (c['bad'], c['options'][c['bad']][0],
                                                      r['res'][1]['config'].get(c['bad'])))
    env.label(c['bad'])
    env.nontrivial()


PARTS = [Part('legal', case(), check, 1000), Part('illegal', illegal_case(), illegal_check, 600)]
