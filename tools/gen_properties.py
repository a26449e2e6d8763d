"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
import os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'The meet-in-the-middle search reports exactly the matching pairs',
     'Building a table from a range of continued fractions and then searching a range of left-hand sides reports every '
     '(continued fraction, post-function, left-hand side) combination whose absolute values agree in the leading '
     'decimal digits the table stores (after dropping the integer part, when so configured), and reports no other '
     'combination and none twice. Rational left-hand sides that do not depend on the constant are never reported, and a '
     'continued fraction or post-function value that is zero, infinite or undefined never matches anything.',
     ['inputs', 'configurations'],
     'all coefficient ranges, polynomial families, interlacings, post-function subsets, table precisions, target '
     'constants and left-hand-side families and ranges',
     'No test builds a table or runs a search (tests of the search module are empty); whether a match is missed can '
     'only be told against a brute-force comparison of all combinations, over many ranges and precisions.',
     ['enum_params.py', 'decimal_hashtable.py', 'cont_fracs.py', 'lhs_evaluators.py', 'enum_poly_params.py'],
     [('table building', 'enum_params.py: MITM.build_hashtable / _iter2hashtalbe'),
      ('search', 'enum_params.py: MITM.find_clicks'),
      ('truncated keys', 'decimal_hashtable.py: DecimalHashTable._manipulate_key')],
     observe=['MITM.get_filtered_params()', 'MITM.dec_hashtable'])

prop('C02', 'Refining keeps exactly the true matches and completes sign and integer part',
     'Refining a list of clicks to a given number of digits keeps, in order, exactly those whose continued fraction '
     '(evaluated to the requested depth and post-processed) and left-hand side still agree in that many leading digits '
     'of their absolute (integer-free) values. Every kept click is completed so that its left-hand side, as described '
     'by its parameters and as valued, equals the signed post-processed continued fraction to that accuracy, sign and '
     'integer part included, and its continued fraction and post-function are unchanged. Refining an already refined '
     'list again with the same settings changes nothing but may only drop clicks when the accuracy is raised.',
     ['inputs', 'configurations'],
     'all lists of clicks (true identities and chance matches), accuracies, depths, signs, post-functions and '
     'left-hand-side families',
     'There is no test of refinement; the sign and integer-part repair depends on combinations of signs, rounding and '
     'parameters that a sample does not reach.',
     ['enum_params.py', 'lhs_evaluators.py', 'cont_fracs.py'],
     [('refinement', 'enum_params.py: MITM._refine_clicks, refine_clicks_with_const_num_of_iters'),
      ('digit comparison', 'enum_params.py: MITM.compare_dec_with_accuracy'),
      ('sign/integer repair', 'lhs_evaluators.py: flip_sign, add_int')],
     observe=['MITM.get_filtered_params()'])

prop('C03', 'An iterated continued fraction always equals its exact convergent',
     'After any history of generating, adding iterations in chunks of any size, reinitializing and toggled logging, the '
     'numerator/denominator pair of a continued fraction object represents exactly the convergent '
     'a0+b1/(a1+b2/(...+bn/an)) of its (possibly interlaced) polynomials at the number of executed iterations, its '
     'result is that convergent at working precision (not-a-number when the denominator vanishes), and comparisons '
     'with a target are the difference to that result. A zero partial numerator is reported as an error exactly when '
     'one lies among the executed iterations and avoiding them was requested, and objects never influence each other.',
     ['inputs', 'histories'],
     'all coefficient lists and interlacings, all sequences of operations on several objects, all chunkings',
     'The only test evaluates one fraction at one depth; chunking, interlacing, logging and reinitialization histories '
     'are not sampled at all.',
     ['cont_fracs.py', 'basic_representation_types.py'],
     [('matrix recurrence', 'cont_fracs.py: ContFrac.iteration_algorithm, _default_promo_mat_gen'),
      ('iteration bookkeeping', 'basic_representation_types.py: gen_iterations, add_iterations')],
     state=[('_params_log / iter_matrices', 'the state after the last iteration (or every one when logging)',
             'basic_representation_types.py')],
     observe=['ContFrac.get_result', 'ContFrac.get_p_q', 'ContFrac.compare_result', 'ContFrac.is_result_valid'])

prop('C04', 'All ways of evaluating a continued fraction agree with its definition',
     'For any partial numerators and denominators, given as lists of values or as (interlaced) polynomials, each '
     'evaluator returns a0+b1/(a1+b2/(...)) truncated at the requested depth (or b0/(a0+b1/(...)) for equally long '
     'lists, and unit numerators when none are given), up to the precision of its arithmetic. The table-building '
     'evaluator, the plain evaluator, the iterated object and the rebuilt result of a click therefore give the same '
     'value at the same depth.',
     ['inputs'],
     'all lists/polynomials of coefficients, interlacings, depths, numeric types and working precisions',
     'No test covers the evaluators; off-by-one index, depth or interlace errors show only on asymmetric inputs.',
     ['cont_fracs.py', 'enum_params.py', 'utils.py'],
     [('backward recurrence', 'cont_fracs.py: eval_contfrac, eval_contfrac_by_polys, eval_dec_contfrac_by_polys'),
      ('rebuilding a click', 'enum_params.py: MITM.build_contfrac_from_params')],
     observe=['return values'])

prop('C05', 'Enumeration of ordinary polynomial pairs is exact up to the documented skips',
     'For any ranges, enumerating ordinary polynomials yields every combination of a- and b-coefficients (upper bounds '
     'excluded) exactly once, with an interlace of identical polynomials squeezed to a single one, except for '
     'documented skips. Skipped are, when avoiding integer roots, pairs with a zero b polynomial or one having a '
     'positive integer root (always for degree up to two after removing powers of the variable, and never when it has '
     'no integer root), and, when only exponential convergence is wanted, non-interlaced pairs with '
     'deg b > 2 deg a. When continued fractions are requested with the pairs, each comes with the value of its own '
     'pair, and those with a vanishing numerator are skipped if so configured.',
     ['inputs', 'configurations'],
     'all range lists (empty, negative, interlaced, ragged), flags and degrees',
     'Two tiny ranges are tested; the skips depend on sign, degree, trailing zeros, discriminants and interlacing, '
     'combinations of which are not sampled.',
     ['enum_poly_params.py'],
     [('cartesian enumeration', 'enum_poly_params.py: BasicEnumPolyParams.polys_generator'),
      ('root test', 'enum_poly_params.py: _does_have_integer_roots, _factor_out_polynom'),
      ('degree test', 'enum_poly_params.py: _polynom_degree')],
     observe=['polys_generator()'])

prop('C06', 'Indexed and sparse families enumerate exactly the polynomials they describe',
     'For any ranges, the indexed family yields exactly the pairs of expanded polynomials '
     'c0*x^n+c1*(x+1)^n+...+cn*(x+n)^n, and the sparse family exactly those polynomials below the configured degree '
     'bound whose coefficients from the range are placed, in order, at every choice of that many powers, independently '
     'for every interlace and for a and b; in both the documented skips of the ordinary family apply to the resulting '
     'polynomials. Nothing else is enumerated.',
     ['inputs', 'configurations'],
     'all ranges, degrees, interlacings and degree bounds',
     'Three small examples are tested, without interlacing and at one degree.',
     ['enum_poly_params.py'],
     [('indexed expansion', 'enum_poly_params.py: IndexedParameterEnumPolyParams.manipulate_poly'),
      ('sparse placement', 'enum_poly_params.py: SparseParameterEnumPolyParams.manipulate_poly')],
     observe=['polys_generator()'])

prop('C07', 'Announced enumeration lengths are never exceeded',
     'Every enumerator of polynomials or of left-hand sides announces, before enumerating, a length that its '
     'enumeration never exceeds, so a progress-tracked run over any ranges can always complete; where the family skips '
     'nothing for those ranges the announced length is the exact count.',
     ['inputs', 'configurations'],
     'all families, ranges, interlacings, degree bounds and flags',
     'No test compares the announced length with the enumeration; a too short length aborts a long run near its end.',
     ['enum_poly_params.py', 'lhs_evaluators.py'],
     [('length estimate', 'enum_poly_params.py: _len_decorator, len_factor_func'),
      ('lhs length', 'lhs_evaluators.py: ULCDEnumerator/RationalFuncEnumerator __len__')],
     observe=['polys_generator()[1]', 'len(LHSEnumerator)'])

prop('C08', 'The decimal table is a dictionary on the leading digits of its keys',
     'Under any history of storing, reading, testing, defaulting, deleting and changing the accuracy, the decimal table '
     'behaves as a dictionary in which two keys are the same exactly if they agree in the leading digits of their '
     'fixed-point notation that the accuracy in force when the entry was stored selects, whatever the magnitude of the '
     'key or the working precision. Entries stored before a change of accuracy stay reachable and are replaced rather '
     'than duplicated, textual names are kept whole, and keys that are neither decimal nor text are refused.',
     ['histories', 'inputs'],
     'all operation histories, keys (small, large, negative, close to each other, textual), accuracies and precisions',
     'The table has no test at all; mixed accuracies and tiny keys need histories to manifest.',
     ['decimal_hashtable.py'],
     [('key truncation', 'decimal_hashtable.py: DecimalHashTable._manipulate_key'),
      ('accuracy history', 'decimal_hashtable.py: update_accuracy')],
     state=[('accuracy, accuracy_history', 'digits of new and of older keys', 'decimal_hashtable.py')],
     observe=['[], in, get, setdefault, del, len, items'])

prop('C09', 'Saved tables and search states come back unchanged',
     'Saving a decimal table, alone or inside a whole search state, and loading it (also in another process) gives an '
     'object with the same entries, accuracies and accuracy history, that reacts to every further operation as the '
     'original does. A loaded search state finds the same matches, and can be refined, filtered and extended, as the '
     'one that was saved.',
     ['histories', 'inputs'],
     'all table histories and search configurations at the moment of saving, all operations after loading',
     'Nothing is saved or loaded in the tests.',
     ['decimal_hashtable.py', 'enum_params.py'],
     [('serialization', 'decimal_hashtable.py: __reduce__, __getstate__, __setstate__'),
      ('search state', 'enum_params.py: MITM (pickled by main.py)')],
     observe=['dill.dumps/loads'])

prop('C10', 'Joining the tables of a distributed run equals one undivided run',
     'Joining the saved tables of any division of the ranges gives a table with, for every key, exactly the union of '
     'the parts\' entries, so a search in it reports what a search in the table of the undivided ranges reports. Tables '
     'of different accuracies are refused, files that are not tables are ignored, the parts are left untouched, and an '
     'already existing output file is never changed.',
     ['inputs', 'configurations', 'histories'],
     'all divisions into parts, overlapping keys, precisions and output locations',
     'The test of joining is empty.',
     ['join_hashtables.py', 'decimal_hashtable.py', 'distribute_run.py'],
     [('merge', 'decimal_hashtable.py: DecimalHashTable.append_dict'), ('joining files', 'join_hashtables.py: main')],
     observe=['the output file', 'MITM.dec_hashtable'])

prop('C11', 'Left-hand sides are worth what their parameters say, under every operation',
     'A left-hand side (u/x+x/l+c)/d or p(x)/q(x)+n is always worth exactly that expression of the constant, at working '
     'precision, after any history of creation, reinitialization, copying, sign flips and integer additions (numerator and denominator not vanishing at the constant). Flipping '
     'the sign negates the value and adding an integer adds it, an evaluator rebuilt from the current parameters has '
     'the current value, and a copy never changes with its original.',
     ['inputs', 'histories'],
     'all parameters, constants and operation histories',
     'Tests check a few enumerated parameter tuples, hardly any value and no history of flips, additions and copies.',
     ['lhs_evaluators.py'],
     [('ULCD', 'lhs_evaluators.py: ULCDEvaluator'), ('rational function', 'lhs_evaluators.py: RationalFuncEvaluator')],
     observe=['get_val', 'get_params'])

prop('C12', 'Canonical form of a rational left-hand side preserves it and is unique',
     'Bringing a rational left-hand side to canonical form never changes its value, leaves numerator and denominator '
     'without a common factor and with the constant term of their polynomial quotient in (-1,0], and is idempotent. '
     'Multiplying numerator and denominator by any common polynomial or integer, or adding an integer to the function, '
     'leads to the same canonical numerator and denominator up to a common sign, and a rational left-hand side counts as '
     'degenerate exactly if it does not depend on the constant.',
     ['inputs'],
     'all numerator and denominator polynomials, common factors and added integers',
     'A single canonicalization is tested.',
     ['lhs_evaluators.py'],
     [('canonical form', 'lhs_evaluators.py: RationalFuncEvaluator.canonalize_params'),
      ('degeneracy', 'lhs_evaluators.py: RationalFuncEvaluator.is_degenerate')],
     observe=['get_params', 'get_val', 'is_degenerate'])

prop('C13', 'Left-hand-side enumeration is exact up to the documented skips',
     'For any ranges (symmetric bound, start/stop/step, or explicit list), enumerating left-hand sides yields every '
     'parameter combination once, each with its own value, except the documented skips: for (u/x+x/l+c)/d those with '
     'l=0, d=0 or |c|>=|d|, and for rational functions those with a zero numerator or denominator (as polynomial or in '
     'value), constant ones and, if so requested, those of lower numerator than denominator degree.',
     ['inputs', 'configurations'],
     'all ranges in every documented format and all constants',
     'Five small ranges are tested and only parameters are compared.',
     ['lhs_evaluators.py'],
     [('ULCD enumeration', 'lhs_evaluators.py: ULCDEnumerator.generator'),
      ('rational enumeration', 'lhs_evaluators.py: RationalFuncEnumerator.generator')],
     observe=['generator()'])

prop('C14', 'Removing redundant results drops only equivalent ones',
     'Filtering unique results keeps an ordered sub-list of them, and every dropped result has a kept one with the same '
     'b, the same a up to sign, the same (or reciprocal) post-function and a left-hand side that is the same function '
     'of the constant up to sign and an added integer (or its reciprocal). Of results with the same continued fraction '
     'and post-function whose left-hand sides are equal rational functions of the constant (up to sign if a is negated '
     'as well) or, in the form (u/x+x/l+c)/d, have the same parameters, only the first is kept, and filtering again changes nothing.',
     ['inputs'],
     'all lists of results, mixing both left-hand-side families, signs, multiples, reciprocals and post-functions',
     'Equivalence is untested; dropping a genuinely new identity or keeping duplicates shows only on particular pairs.',
     ['enum_params.py', 'lhs_evaluators.py', 'postprocfuncs.py'],
     [('unique filter', 'enum_params.py: MITM.filter_uniq_params'),
      ('equivalence', 'lhs_evaluators.py: ULCDEvaluator.is_equiv, RationalFuncEvaluator.is_equiv')],
     observe=['MITM.get_filtered_params()'])

prop('C15', 'Results with a vanishing numerator are filtered out, and no others',
     'Filtering by integer roots drops exactly the results of which some interlaced b polynomial, of any degree, has a '
     'positive integer root, and keeps all others unchanged and in order (roots within a hundredth of an integer aside, '
     'which the numerical method may take for it).',
     ['inputs'],
     'all lists of results and b polynomials (any degree, leading and trailing zeros, negative, fractional, complex and '
     'double roots)',
     'The filter has no test; numerical root finding errs on particular polynomials only.',
     ['enum_params.py'],
     [('root filter', 'enum_params.py: MITM.filter_pos_integer_roots_numerators')],
     observe=['MITM.get_filtered_params()'])

prop('C16', 'Fast and slow convergence are told apart',
     'Continued fractions whose error shrinks at least geometrically (by some percent over every second iteration) are '
     'classified as fast converging, and those whose error shrinks ever slower than that, as with polynomial convergence, '
     'or not at all, within the iterations looked at, are not. Filtering results by it keeps '
     'exactly the fast ones, unchanged and in order, and drops those that end because of a zero numerator, whether or '
     'not the dropped ones are to be printed.',
     ['inputs'],
     'families with theoretically known convergence: all degrees, leading coefficients and interlacings within them',
     'No test classifies any continued fraction.',
     ['cont_fracs.py', 'enum_params.py'],
     [('ratio test', 'cont_fracs.py: ContFrac.is_convergence_fast'),
      ('filter', 'enum_params.py: MITM.filter_only_exp_convergence')],
     observe=['ContFrac.is_convergence_fast', 'MITM.get_filtered_params()'])

prop('C17', 'The estimated kind and rate of convergence are right and depth-limiting is safe',
     'For continued fractions of known geometric convergence the estimated type is exponential and the estimated rate '
     'is the true one within a few percent, those of faster than geometric convergence are called exponential, super '
     'exponential or fast, and polynomially converging ones are never called exponential and, where called '
     'polynomial, have about the true exponent; filtering by approach type keeps, '
     'with that information attached, exactly the results whose type is asked for. Iterating with an accuracy goal '
     'never exceeds the allowed number of iterations and, with correct convergence information, reaches the goal '
     'whenever the allowed number suffices, so true identities survive refinement with it.',
     ['inputs', 'configurations'],
     'families with theoretically known rate, accuracy goals and iteration bounds, white- and blacklists',
     'No test estimates convergence or refines with it.',
     ['cont_fracs.py', 'basic_representation_types.py', 'enum_params.py'],
     [('estimation', 'cont_fracs.py: ContFrac.estimate_approach_type_and_params'),
      ('required iterations', 'basic_representation_types.py: BasicContFracAlgo.gen_iterations'),
      ('filter', 'enum_params.py: MITM.filter_clicks_by_approach_type, refine_clicks_with_convergence_info')],
     observe=['get_approach_type_and_params', 'get_result', 'get_num_of_executed_iters'])

prop('C18', 'Every constant is right at every precision, in every order of requests',
     'Each supported constant (pi, e, Euler-Mascheroni, golden ratio, zeta of 2 to 20 and Apery\'s, the percolation and '
     'Feigenbaum ones), requested with or without a precision and after any sequence of other requests, equals the '
     'mathematical constant to the working precision (as far as its stored digits go). Requesting a precision sets the '
     'working precision, and requesting none leaves it alone.',
     ['histories', 'inputs'],
     'all sequences of requests, indices and precisions up to the stored digits',
     'The test file of the constants is empty.',
     ['gen_consts.py'],
     [('constants', 'gen_consts.py: gen_*_const(s)'), ('precision', 'gen_consts.py: set_precision_decor')],
     observe=['return values', 'mpmath.mp.dps'])

prop('C19', 'Configurations are parsed faithfully, and written ones parse back to the same',
     'Every legal configuration file yields exactly the written values, in their documented types, with the documented '
     'defaults for optional ones, independent of spacing, order and letter case of keywords; a configuration that was '
     'parsed and written back (as runs do beside their results) parses to the same configuration. Illegal kinds of '
     'polynomials, left-hand sides, operations, post-functions or booleans are refused with an error.',
     ['configurations'],
     'all combinations of legal and illegal values of all parameters',
     'The test of the configuration file is empty.',
     ['configfile.py', 'main.py'],
     [('parsing', 'configfile.py: ConfigParser._cast_param_val and parsers'),
      ('writing', 'configfile.py: ConfigParser.set, param_to_string')],
     observe=['ConfigParser.get_config()', 'written files'])

prop('C20', 'Generated tables never overwrite, and the newest version is the one used',
     'For any content of a directory, generating a table chooses a file name that does not exist and whose version '
     'number is higher than that of every existing version of that table, and using or expanding one chooses the existing '
     'version of highest number (not the alphabetically last), only files of exactly that table name counting. With no existing version the name '
     'given, at version one unless it names a version, is chosen.',
     ['histories', 'configurations'],
     'all directory contents, table names (with dots, digits, version-like parts, special characters), operations and '
     'histories of successive runs',
     'Untested; ordering errors need ten or more versions or colliding names.',
     ['configfile.py'],
     [('version choice', 'configfile.py: ConfigParser._gen_hashtable_filename, next_hashtable_version')],
     observe=["get_config()['hashtable_file']"])

prop('C21', 'Distributing a run splits it exactly',
     'Distributing a configuration into a power-of-two number of parts writes that many configuration files, each of '
     'which loads, equals the original but for the ranges and a table file of its own, and whose coefficient ranges '
     'together cover every combination of the original ranges exactly once, none of them being empty. Part counts that are not powers of two, and ranges that cannot be '
     'divided that far, are refused, and launching a distributed run starts each configuration file of its directory, '
     'and nothing else, once.',
     ['configurations'],
     'all ranges (negative, width one, interlaced), part counts and configuration locations',
     'The tests of distribution are empty.',
     ['distribute_run.py', 'run_distributed_configs.py', 'configfile.py'],
     [('splitting', 'distribute_run.py: split_params, main'), ('launching', 'run_distributed_configs.py: main')],
     observe=['written configuration files', 'launched commands'])

prop('C22', 'Exported equations state what was found',
     'The equation exported for any result reads, as mathematics, "left-hand side = post-function of the continued '
     'fraction": its left side is worth the left-hand side at the constant, its right side is worth the '
     'post-processed continued fraction once its dots are replaced by the tail, at any depth. One equation is exported per result, in '
     'order, under the constant\'s name, and the document made of them contains each of them once.',
     ['inputs'],
     'all results: both left-hand-side families, all post-functions, signs, zero and unit coefficients, high powers, '
     'interlacings, constants and depths',
     'The latex test is empty; special cases for 0, 1, -1 and multi-digit powers are not sampled.',
     ['latex.py', 'lhs_evaluators.py', 'postprocfuncs.py', 'enum_params.py'],
     [('equation', 'enum_params.py: MITM.get_results_as_eqns'), ('continued fraction', 'latex.py: latex_cont_frac'),
      ('left-hand side', 'lhs_evaluators.py: get_latex_exp'), ('post-function', 'postprocfuncs.py: POSTPROC_FUNCS_LATEX')],
     observe=['returned equations', 'generated document'])

prop('C23', 'The exported table of results is complete and faithful',
     'The exported csv file names the constant and has, in order, one row per result with its polynomials, its '
     'post-function, its left-hand-side parameters, its convergence type and rate, and the values of both sides to '
     'working precision, such that every result can be rebuilt from its row.',
     ['inputs'],
     'all lists of results over both left-hand-side families, interlacings, post-functions and convergence information',
     'There is no test of the export.',
     ['enum_params.py'],
     [('export', 'enum_params.py: MITM.export_to_csv, build_contfrac_from_params')],
     observe=['the written csv file'])

prop('C24', 'A whole run finds the identities in its ranges and reports only true ones',
     'A run from a configuration file finds the fast converging identities that lie in its ranges, writes only results whose two sides '
     'agree to the configured final precision, and saves beside them a configuration that loads to the same settings. '
     'Generating saves a table (searching at once or in a later run, with the same results), expanding saves a new '
     'version that also has the new entries and keeps the old version, and results of earlier runs are never '
     'overwritten.',
     ['configurations', 'histories'],
     'all constants, ranges around known identities, operations (generate, use, expand) and sequences of runs in one '
     'directory',
     'The test of the main program is empty, and no sample run can cover the sequences of operations.',
     ['main.py', 'enum_params.py', 'configfile.py'],
     [('pipeline', 'main.py: main')],
     observe=['result directory', 'table files'])

prop('C25', 'Post-functions compute what their names say and pair with their reciprocals',
     'Every post-function returns its named function (powers, reciprocals, square root, sine, cosine, tangent, '
     'cotangent, exponential, logarithm and their reciprocals) of its argument at working precision, infinity for the reciprocal of zero, and not-a-number '
     'where it is undefined over the reals. The position of each in the list is fixed (stored tables refer to it), the '
     'declared reciprocal pairs are each of two functions whose product is one, and every function is paired with its reciprocal neighbour, and each has a notation that denotes the same '
     'function.',
     ['inputs'],
     'all arguments (negative, zero, tiny, huge), precisions and post-functions',
     'The test of post-functions is empty.',
     ['postprocfuncs.py'],
     [('functions', 'postprocfuncs.py: POSTPROC_FUNCS, EVALUATED_POSTPROC_FUNCS'),
      ('pairs', 'postprocfuncs.py: INVERSE_POSTPROC_PAIRS'), ('latex', 'postprocfuncs.py: POSTPROC_FUNCS_LATEX')],
     observe=['return values'])

prop('C26', 'Arithmetic and progress helpers are exact',
     'The greatest common divisor helper returns, for any two integers, a value whose magnitude is their greatest common '
     'divisor, substitution in a polynomial is exact for every numeric type, and grouping splits any sequence into '
     'consecutive full groups with the last one filled up. The progress wrapper yields exactly the elements of what '
     'it wraps (with their indices if asked), refuses what has no known length and displays at the end how long it took, in days, hours, minutes and seconds, and the runtime measurer\'s successive measures sum up to the time that passed, '
     'whatever the clock does between calls.',
     ['inputs', 'histories'],
     'all integers, polynomials, sequences, group sizes and histories of clock readings and measurements',
     'A handful of values is tested.',
     ['utils.py'],
     [('gcd, substitution', 'utils.py: MathOperations'), ('grouping', 'utils.py: grouper'),
      ('progress', 'utils.py: ProgressBar'), ('runtime', 'utils.py: MeasureRuntime')],
     observe=['return values'])

prop('C27', 'Building a table in steps equals building it at once',
     'Building a table by any sequence of overlapping ranges and post-function subsets, in any order and with or without '
     'the check for existing entries, stores the same set of entries as building all of them at once, each entry once. '
     'After the settings are redefined to a higher precision or another family in between, entries stored '
     'before are still found and new entries are stored at the new settings.',
     ['histories', 'configurations'],
     'all sequences of builds and redefinitions, ranges, families and precisions',
     'Nothing is built in the tests, let alone repeatedly.',
     ['enum_params.py', 'decimal_hashtable.py'],
     [('extending', 'enum_params.py: MITM.build_hashtable, redefine_settings'),
      ('skip of existing entries', 'enum_params.py: MITM._iter2hashtalbe')],
     observe=['MITM.dec_hashtable', 'MITM.get_filtered_params()'])

prop('C28', 'Repairing a stored table removes exactly its integer-root entries',
     'The repair tool writes, beside a stored table and without changing it, a table that has exactly those of its '
     'entries none of whose b polynomials the enumeration would now skip for zero or integer roots, with no empty keys left.',
     ['inputs'],
     'all stored tables: any mix of entries per key',
     'The tool has no test; removing several entries of one key while iterating over it needs particular tables.',
     ['fix_hashtable_filter_init_b_root.py', 'enum_poly_params.py'],
     [('repair', 'fix_hashtable_filter_init_b_root.py: main'),
      ('root test', 'enum_poly_params.py: BasicEnumPolyParams._does_have_integer_roots')],
     observe=['the written *_fixed file'])

prop('C29', 'A distributed search equals the undivided one',
     'Distributing a configuration of the main program, launching every part, joining the tables the parts save and '
     'searching the joint table gives the same table entries and, up to which of several equivalent ones is shown, the same results as running the '
     'undivided configuration, whatever the number of parts and the order in which they run; no part overwrites another\'s '
     'table or any other file.',
     ['configurations', 'schedules'],
     'all configurations of constants, families and ranges, numbers of parts, orders of the parts\' runs',
     'No test runs a distributed search; the guarantee spans five programs that only share files.',
     ['distribute_run.py', 'run_distributed_configs.py', 'main.py', 'join_hashtables.py', 'configfile.py'],
     [('distribution', 'distribute_run.py: main, split_params'), ('runs', 'main.py: main'),
      ('joining', 'join_hashtables.py: main'), ('versions', 'configfile.py: ConfigParser.get_config')],
     observe=['table files', 'result directories'])

prop('C30', 'Cancelling the last refinement loses no results',
     'Once a run says that refining can be cancelled, a KeyboardInterrupt at any point of the refinement or of the filters that follow '
     'ends the run normally, with its results, document and configuration saved: all the results of the uncancelled '
     'run are there, and every result that is there is well-formed and agrees to the precision of the refinement '
     'before.',
     ['inputs', 'crash_points'],
     'all searches, and all points at which the interrupt may arrive in the code that the main program calls',
     'No test interrupts a run; the loss depends on the exact statement at which the interrupt arrives.',
     ['main.py', 'enum_params.py', 'lhs_evaluators.py'],
     [('cancelling', 'main.py: main'), ('refinement', 'enum_params.py: MITM._refine_clicks, filter_uniq_params, '
                                        'filter_pos_integer_roots_numerators')],
     observe=['result directory'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
