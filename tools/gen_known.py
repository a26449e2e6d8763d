"""Writes the 'fixed:' lines of known_findings.txt from the fix commits of /repo (run by hand)."""
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = [
    ('safe_inverse and safe_sqrt', 'C25', 'the reciprocal of 0 raised ZeroDivisionError and the root of a negative number a TypeError (Decimal methods on mpf)'),
    ('the trigonometric, exp and ln', 'C25', 'sine, cosine, tangent, cotangent, exp and ln could not be evaluated on mpf values'),
    ('DecimalHashTable accepts the mpf', 'C08', 'storing under an mpf key raised (only Decimal was accepted), so no table could be built'),
    ('DecimalHashTable.get and setdefault', 'C08', 'get and setdefault looked for the whole key and never found the truncated one'),
    ('deleting a key of the current', 'C08', 'del of a key stored at the current accuracy raised KeyError'),
    ('textual keys of a', 'C08', "textual keys were cut to the accuracy: 'parameters' and 'param...' collided"),
    ('the LHS evaluators work on the mpf', 'C11', 'every left-hand side evaluated with a Decimal-only call raised on mpf constants'),
    ('refining clicks and exporting', 'C02', 'refining and exporting raised on mpf values (quantize, to_eng_string)'),
    ('post functions already stored', 'C27', 'extending a table skipped post-functions not yet stored for a pair, or stored others twice'),
    ('the integer that a refined click', 'C02', 'a click like L=0.999.. against 3.0.. got the integer 2 added instead of 3 (truncated instead of rounded)'),
    ('a root just above half', 'C15', 'abs(r - round) was compared without abs: b=[-3,2] (root 1.5..) was dropped as having an integer root'),
    ('the latex equations of the sqrt', 'C22', 'equations of sqrt, exp and ln stated the function on the wrong side'),
    ('the index of a zeta', 'C18', 'gen_zeta_consts(3) set the working precision to 3 digits'),
    ('searches for the feig', 'C24', 'a run for const=feig or percolation ended with an error (missing index in the name)'),
    ('the optional configuration', 'C19', 'optional options left out were None instead of their defaults'),
    ('a configured path keeps', 'C19', 'hashtable_file=Tables/T.pkl was read as tables/t.pkl'),
    ("the hashtable's versions are ordered", 'C20', 'v9 was taken for newer than v10, and files of similarly named tables counted'),
    ('saved and distributed configuration', 'C19', 'configurations saved by a run (and distributed ones, C21) could not be loaded'),
    ("joining hashtables doesn't overwrite", 'C10', 'joining into an existing file announced to abort and overwrote it'),
    ('the distributed configuration files', 'C21', 'distributing dir/config.ini raised (wrote to out_dir/dir/...)'),
    ('ContFrac.is_result_valid', 'C03', 'is_result_valid raised AttributeError'),
    ('the number of iterations for a required', 'C17', 'gen_iterations with an accuracy raised for mpf convergence parameters'),
    ('ContFrac.get_p_q', 'C03', 'get_p_q returned the numerator and denominator of one iteration before'),
    ('eval_contfrac of equal length', 'C04', 'eval_contfrac([a0,a1],[b0,b1]) was b0/(a0+b0/..) instead of the documented b0/(a0+b1/a1)'),
    ('the integer roots of linear', 'C05', 'integer roots of linear and quadratic b polynomials were missed or invented'),
    ('the length estimate of interlaced', 'C07', 'interlaced sparse enumerations were longer than announced, which ended the build with an error'),
    ('the polynomials enumerator is recreated', 'C27', 'redefining to a derived polynomial family kept the old enumerator'),
    ('powers of 10 and above', 'C22', 'x^10 was exported as x^10 = x^1 0'),
    ('the exported csv tells the post', 'C23', 'the csv had the function object instead of the index of the post-function'),
    ('a logging ContFrac', 'C03', 'a logging object had no result before its first iteration'),
    ("results aren't lost", 'C24', 'a second run in the same minute, or a minute passing while saving, lost the results'),
    ('a search in a loaded hashtable', 'C24', "'use' searched the constant the table was made for instead of the configured one"),
    ('an expanded hashtable is saved', 'C24', "'expand' wrote over the loaded version"),
    ('rational functions are equivalent', 'C14', 'different rational functions were dropped as equivalent'),
    ('search states with refined', 'C09', 'a saved state with refined rational functions could not be loaded'),
    ('a reinitialized rational', 'C11', 'after reinit_params, get_params gave the old parameters'),
    ('a finite continued fraction is dropped', 'C16', 'ZeroB of a finite continued fraction ended the run'),
    ('very large and very small', 'C08', 'keys of magnitude 1e30 or 1e-1000000 raised or exhausted the memory (C01: ended a search)'),
    ('the canonical form of a rational', 'C12', 'coefficients above 2^53 were changed by the float quotient'),
    ('entries that two joined', 'C10', 'entries both of the joined tables have were there twice'),
    ('a progress bar of something', 'C26', 'wrapping a generator without a length raised an unrelated NameError'),
    ('a progress bar can wrap', 'C26', 'wrapping an empty sequence raised ZeroDivisionError'),
    ('a table name with .pkl', 'C20', "names like 'a.pkl.b' or 't_v2_x' were neither completed nor versioned"),
    ('the exported csv tells the type', 'C23', "the type column had the object's address instead of ulcd or rationalfunc"),
    ("printing surprising results", 'C16', 'print_surprising_nonexp_contfracs=true ended the run at a result whose convergence could not be estimated'),
    ("rounding errors aren't taken", 'C17', 'a=[2], b=[27] (geometric) was of type None, because errors at rounding level were sampled'),
    ('the convergence of very fast', 'C17', 'sampling went back over negative numbers of iterations for very fast continued fractions'),
    ('the coefficient of the convergence', 'C17', 'a*b^-n with a large a was iterated too few times for the accuracy'),
    ('cancelling the refinement', 'C30', 'Ctrl-C during the last refinement, where a left-hand side is just adjusted, ended the run without saving'),
    ('large b polynomials were taken', 'C05', 'b polynomials with coefficients of 1e8 and above were dropped as having integer roots (float square root and is_integer)'),
    ('integer roots of high multiplicity', 'C15', 'b polynomials with an integer root of multiplicity four and more, such as (n-10)^4, were not filtered out (numpy finds those roots inexactly)'),
    ('zero is stored under', 'C08', "zero was stored under '0.0' whatever the accuracy, other than numbers with the same leading digits"),
    ("items of joined tables aren't", 'C10', 'joining parts that were expanded to a higher precision hid entries from the search (a shorter, older key of another part was found first)'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True)
    commits = [x.split(' ', 1) for x in log.stdout.splitlines() if ' fix: ' in x]
    lines, used = [], set()
    for start, prop, what in WHAT:
        found = [h for h, s in commits if s.startswith('fix: ' + start)]
        assert len(found) == 1, (start, found)
        used.add(found[0])
        lines.append('fixed: property=%s %s %s' % (prop, found[0], what))
    assert used == {h for h, _ in commits}, [c for c in commits if c[0] not in used]
    with open(os.path.join(ROOT, 'known_findings.txt'), 'w') as f:
        f.write('\n'.join(lines) + '\n')


main()
