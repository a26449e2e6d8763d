"""Random configurations: {option: [text written, type, value it stands for]}."""
import json

from hypothesis import strategies as st

import oracle as O
import strat as S
import c13

CONSTS = ['e', 'pi', 'feig', 'euler_masch', 'percolation', 'zeta', 'phi', 'apery']
INTS = ['hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations',
        'first_filtering_precision', 'second_filtering_max_num_of_iterations', 'second_filtering_precision',
        'third_filtering_max_num_of_iterations', 'third_filtering_precision']
OPTIONAL = {'i': ['int', 0], 'is_test': ['bool', False], 'validate_hashtable_extend_no_replication': ['bool', True]}
TEXTS = ['lambda x: x', 'safe_inverse', 'lambda x: x**2', 'lambda x: safe_inverse(x**2)', 'lambda x: x**3',
         'lambda x: safe_inverse(x**3)', 'lambda x: x**4', 'lambda x: safe_inverse(x**4)', 'lambda x: x**5',
         'lambda x: safe_inverse(x**5)', 'safe_sqrt', 'lambda x: safe_inverse(safe_sqrt(x))', 'lambda x: dec_sin(x)',
         'lambda x: safe_inverse(dec_sin(x))', 'lambda x: dec_cos(x)', 'lambda x: safe_inverse(dec_cos(x))',
         'lambda x: dec_tan(x)', 'lambda x: safe_inverse(dec_tan(x))', 'lambda x: dec_cot(x)',
         'lambda x: safe_inverse(dec_cot(x))', 'lambda x: dec_exp(x)', 'lambda x: safe_inverse(dec_exp(x))',
         'lambda x: dec_ln(x)', 'lambda x: safe_inverse(dec_ln(x))']


@st.composite
def cased(draw, word):
    how = draw(st.integers(0, 3))
    return [word, word.upper(), word.capitalize(), word][how]


@st.composite
def boolean(draw):
    v = draw(st.booleans())
    return [draw(cased('true' if v else 'false')), 'bool', v]


@st.composite
def jsoned(draw, value):
    """JSON with random spacing."""
    sep = draw(st.sampled_from([(',', ':'), (', ', ': '), (' , ', ' : ')]))
    text = json.dumps(value, separators=sep)
    if draw(st.integers(0, 3)) == 0:
        # broken over lines, as in a long configuration
        text = text.replace('[[', '[\n  [', 1)
    return [text, 'list', value]


@st.composite
def options(draw, ranges=None, table=None):
    c = {}
    const = draw(st.sampled_from(CONSTS))
    c['const'] = [draw(cased(const)), 'str', const]
    ab = draw(st.sampled_from(['normal', 'indexed', 'sparse']))
    c['ab_polys_type'] = [draw(cased(ab)), 'list', [ab]]
    if ab == 'sparse':
        c['ab_polys_special_params'] = draw(jsoned([draw(st.integers(1, 5)), draw(st.integers(1, 5))]))
    else:
        c['ab_polys_special_params'] = [draw(cased('none')), 'NoneType', None]
    c['print_surprising_nonexp_contfracs'] = draw(boolean())
    op = draw(st.sampled_from(['use', 'generate', 'expand']))
    c['hashtable_file_operation'] = [draw(cased(op)), 'str', op]
    only = draw(st.sampled_from(['true', 'false', 'auto', 'auto']))
    c['gen_hashtable_only'] = [draw(cased(only)), 'bool', {'true': True, 'false': False, 'auto': op != 'use'}[only]]
    ra, rb = draw(ranges) if ranges is not None else (draw(S.interlace()), draw(S.interlace()))
    c['a_coeffs_range'] = draw(jsoned(ra))
    c['b_coeffs_range'] = draw(jsoned(rb))
    kind = draw(st.sampled_from(['ulcd', 'rationalfunc']))
    c['lhs_type'] = [draw(cased(kind)), 'list', [kind]]
    c['lhs_params'] = draw(jsoned(draw(c13.ulcd_params() if kind == 'ulcd' else c13.rational_params())))
    pfs = draw(st.lists(st.integers(0, O.NPOST - 1), min_size=1, max_size=6, unique=True))
    c['postproc_funcs_filter'] = [draw(jsoned([TEXTS[i] for i in pfs]))[0], 'list', pfs]
    for k in INTS:
        v = draw(st.integers(1, 3000))
        c[k] = [str(v), 'int', v]
    if draw(st.booleans()):
        v = draw(st.integers(0, 20))
        c['i'] = [str(v), 'int', v]
    for k in ('is_test', 'validate_hashtable_extend_no_replication'):
        if draw(st.booleans()):
            c[k] = draw(boolean())
    c['hashtable_file'] = draw(table) if table is not None else [draw(st.sampled_from(
        ['table', 'table.pkl', 'tables/Table_X.pkl', 'tables/t_v3.pkl', 'a.b.pkl', 'T1'])), 'path', None]
    return c


@st.composite
def layout(draw, c, extra=True):
    """The configuration as a text: order, spacing, letter case of the options, comments, several sections."""
    keys = list(c)
    keys = draw(st.permutations(keys))
    lines = ['[%s]' % draw(st.sampled_from(['Setup', 'setup', 'whatever']))]
    cut = draw(st.integers(0, len(keys)))
    for n, k in enumerate(keys):
        if extra and n == cut and draw(st.booleans()):
            lines.append('[Another]')
        how = draw(st.integers(0, 5))
        name = k.upper() if how == 0 else (k.capitalize() if how == 1 else k)
        sep = draw(st.sampled_from(['=', ' = ', '= ', ' =', ': ', '=   ']))
        end = draw(st.sampled_from(['', '', '  ', '\t']))
        if extra and draw(st.integers(0, 7)) == 0:
            lines.append(draw(st.sampled_from(['; a comment', '# const=e', '', '; i=17'])))
        lines.append(name + sep + c[k][0].replace('%', '%%') + end)
    if extra and draw(st.integers(0, 3)) == 0:
        lines.append('some_unknown_option = ' + draw(st.sampled_from(['5', 'x', '[1, 2]', 'None', '0.5', 'TRUE'])))
    return '\n'.join(lines) + '\n'


def plain(c):
    return '[Setup]\n' + ''.join('%s=%s\n' % (k, v[0].replace('%', '%%')) for k, v in c.items())
