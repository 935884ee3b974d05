#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("C01", "Continued-fraction convergents are exact for every polynomial pair",
     "For every (possibly interlaced) pair of integer polynomials a, b and every depth n, the continued fraction built from them reports as its latest numerator and denominator the exact integers P_n, Q_n of a(0)+b(1)/(a(1)+b(2)/(...+b(n)/a(n))), where in an interlace the i-th term uses polynomial number i modulo the number of polynomials evaluated at i. Its value is P_n/Q_n, or NaN when Q_n is zero, and the comparison with a target is value minus target (absolute unless the sign is asked for). With logging on, every intermediate convergent is recorded in order.",
     ["inputs"], "all integer coefficients, all interlace shapes and depths, all targets, custom step generators and start matrices",
     "test_contfrac compares six fixed fractions with a decimal target at 1e-3..1e-15 and does not run on the current code base; it never looks at the numerator/denominator, at Q_n = 0, at logging or at interlaces beyond one.",
     ["cont_fracs.py", "basic_representation_types.py", "utils.py"],
     [("matrix recurrence", "cont_fracs.ContFrac.iteration_algorithm"), ("polynomial step generator", "cont_fracs.ContFrac._default_promo_mat_gen"), ("value and NaN handling", "cont_fracs.ContFrac.finalize_iterations, get_result, get_p_q, is_result_valid"), ("logging", "basic_representation_types.BasicRecursiveConstRepresenter.add_iterations, compare_result")],
     [("iter_matrices", "last (or all, when logging) pair of convergent rows", "basic_representation_types.py")],
     ["ContFrac.get_p_q", "ContFrac.get_result", "ContFrac.compare_result"])

prop("C02", "Incremental, restarted and reused continued fractions equal fresh ones",
     "Any sequence of generating from scratch, adding iterations in any portions and re-initialising an existing continued fraction with other polynomials leaves it with exactly the numerator, denominator, value and iteration count of a newly built one run for the same total number of iterations. Re-initialising with only one polynomial or an explicit start matrix keeps the other settings, and generating zero iterations restores the initial state.",
     ["histories", "inputs"], "all operation sequences up to the bound, all portions, all coefficients",
     "The only continued-fraction test generates once per object; splitting, restarting and reuse (what enumeration and filtering actually do) are never compared with a fresh object.",
     ["basic_representation_types.py", "cont_fracs.py"],
     [("restart", "basic_representation_types.BasicRecursiveConstRepresenter.gen_iterations"), ("append", "basic_representation_types.BasicRecursiveConstRepresenter.add_iterations"), ("reuse", "cont_fracs.ContFrac.reinitialize")],
     [("num_of_executed_iters", "iterations done so far", "basic_representation_types.py"), ("_params_log", "latest parameters/results", "basic_representation_types.py")],
     ["ContFrac.get_p_q", "ContFrac.get_result", "ContFrac.get_num_of_executed_iters"])

prop("C03", "A finite continued fraction is reported exactly when a numerator vanishes",
     "With zero-numerator avoidance on (the default), running n iterations raises the dedicated zero-numerator error if and only if some b-term with index 1..n is zero, at the first such index, and never because of the unused term with index 0. With avoidance off no such error occurs and a value after n iterations, when it is defined, is that of the fraction truncated just before the first zero numerator.",
     ["inputs"], "all b polynomials and interlaces, all depths, both settings of the option",
     "No test triggers the error or runs with the option off.",
     ["cont_fracs.py"], [("zero test", "cont_fracs.ContFrac._default_promo_mat_gen"), ("user-visible skip", "enum_poly_params.BasicEnumPolyParams.polys_generator")],
     None, ["ContFrac.gen_iterations raising ZeroB", "polys_generator output"])

prop("C04", "Direct continued-fraction evaluators give the nested value of their arguments",
     "Evaluating explicit lists gives a[0]+b[0]/(a[1]+b[1]/(...)) when a is one longer than b, b[0]/(a[0]+b[1]/(...)) when they have equal length, uses ones when b is omitted, and rejects any other lengths. The polynomial evaluators of depth d give the value of the continued fraction object after d-1 iterations, for plain and interlaced polynomials, given either bare or as a list of polynomials. The evaluators leave their arguments unchanged.",
     ["inputs"], "all list lengths up to the bound, all integer or real entries, all polynomials, interlaces and depths",
     "No test calls the direct evaluators, although the hash table and the refinement are computed with them.",
     ["cont_fracs.py", "utils.py"], [("nested evaluation", "cont_fracs.eval_contfrac"), ("from polynomials", "cont_fracs.eval_contfrac_by_polys, cont_fracs.eval_dec_contfrac_by_polys")],
     None, ["return values"])

prop("C05", "Fast-convergence verdict follows the documented ratio test",
     "A continued fraction is declared (at least) exponentially convergent exactly when, at every checked position from the cutoff to the iteration limit, the difference of consecutive same-parity convergents exceeds the following one by more than one sixteenth, for both the even and the odd sequence. The verdict leaves the object at zero iterations.",
     ["inputs"], "all convergent sequences (start matrix and step terms arbitrary), all cutoffs, limits and steps up to the bound",
     "No test calls the classifier; its verdict depends on integer inequalities over six consecutive convergents at many positions.",
     ["cont_fracs.py"], [("integer ratio test", "cont_fracs.ContFrac.is_convergence_fast")], None, ["ContFrac.is_convergence_fast"])

prop("C06", "Polynomial enumeration is exact and once-only for plain and interlaced ranges",
     "For every list of coefficient ranges (lower bound included, upper excluded) for a and b, the enumeration yields every pair of coefficient choices exactly once and nothing else, apart from those removed by the requested filters. An interlace whose polynomials are all identical is reported as the single polynomial, without affecting any other yielded pair. When continued fractions are requested, each yielded object carries the polynomials yielded with it and the requested number of iterations, and only pairs with a vanishing numerator are skipped.",
     ["inputs", "configurations"], "all range bounds (including empty and one-element ranges), degrees and interlace counts up to the bound",
     "Three fixed range pairs are enumerated; range edges, interlace squeezing followed by further pairs, and the pairing of objects with polynomials are not covered.",
     ["enum_poly_params.py"], [("cartesian enumeration", "enum_poly_params.BasicEnumPolyParams.polys_generator")], None, ["polys_generator output"])

prop("C07", "Indexed and sparse enumerations expand to exactly the documented polynomials",
     "The indexed enumeration turns coefficients c_0..c_n into the coefficients of c_0*x^n + c_1*(x+1)^n + ... + c_n*(x+n)^n. The sparse enumeration with maximum sizes (n_a, n_b) places the k enumerated coefficients, in order, at every choice of k of the n positions, independently for each interlaced polynomial, every placement exactly once and all other coefficients zero.",
     ["inputs", "configurations"], "all coefficients, all degrees, sizes and interlace counts up to the bound",
     "One indexed and two sparse fixed examples; the polynomial identity has to hold for all coefficients and all x.",
     ["enum_poly_params.py"], [("shifted-power expansion", "enum_poly_params.IndexedParameterEnumPolyParams.manipulate_poly"), ("masks", "enum_poly_params.SparseParameterEnumPolyParams.manipulate_poly")], None, ["polys_generator output"])

prop("C08", "The integer-root and degree filters drop exactly the fractions they describe",
     "With root avoidance on, a pair is dropped when some b polynomial is zero or, after removing factors of x, has degree at most two and a positive integer root; a pair none of whose b polynomials is zero or has an integer root is never dropped, and with avoidance off nothing is dropped for its roots. With exponential-only enumeration, exactly the non-interlaced pairs with deg(b) > 2*deg(a) are dropped, degrees ignoring trailing zero coefficients.",
     ["inputs", "configurations"], "all coefficient values up to the bound, all polynomial lengths up to the bound, all option combinations",
     "Three fixed polynomials are tested, none of them a quadratic with an integer root; a wrong drop silently loses a result, a wrong keep pollutes the table.",
     ["enum_poly_params.py"], [("root test", "enum_poly_params.BasicEnumPolyParams._does_have_integer_roots"), ("factoring", "enum_poly_params.BasicEnumPolyParams._factor_out_polynom"), ("degree", "enum_poly_params.BasicEnumPolyParams._polynom_degree")], None, ["polys_generator output"])

prop("C09", "Advertised enumeration lengths are never smaller than what is produced",
     "The length announced together with the polynomial enumeration (normal, indexed, sparse) and the length of each left-hand-side enumeration is at least the number of items it yields, with equality for the polynomial enumerations when no filter removes or rejects anything. Consumers size their progress reporting by it and fail if it is exceeded.",
     ["inputs", "configurations"], "all range bounds, degrees, sizes and interlace counts up to the bound, all enumeration kinds",
     "No test looks at the announced lengths; the sparse length depends on binomials of the sizes and the interlace count.",
     ["enum_poly_params.py", "lhs_evaluators.py", "enum_params.py"], [("length decorator", "enum_poly_params._len_decorator"), ("sparse factor", "enum_poly_params.SparseParameterEnumPolyParams.__init__"), ("LHS lengths", "lhs_evaluators.ULCDEnumerator.__init__, lhs_evaluators.RationalFuncEnumerator.__init__")], None, ["polys_generator second result", "len(enumerator)"])

prop("C10", "ULCD left-hand sides keep value and parameters consistent under every edit",
     "A ULCD left-hand side with parameters (u, l, c, d) and constant x has value (u/x + x/l + c)/d. After any sequence of sign flips, integer additions, re-parametrisations and copies, the value is the original one negated/shifted accordingly, the parameters evaluate to that value, and a copy is unaffected by later changes of its source.",
     ["inputs", "histories"], "all nonzero l, d, all u, c, all constants, all edit sequences up to the bound",
     "The evaluator tests use Decimal constants that no longer exist, so they fail today; they fix one edit order and four parameter sets.",
     ["lhs_evaluators.py"], [("evaluation and edits", "lhs_evaluators.ULCDEvaluator"), ("copying", "lhs_evaluators.LHSEvaluator.__init__")], [("params / val", "parameters and cached value", "lhs_evaluators.py")], ["get_val", "get_params"])

prop("C11", "Rational left-hand sides keep value and parameters consistent under every edit",
     "A rational left-hand side with numerator p, denominator q and added integer k has value p(x)/q(x)+k, or NaN when p(x) or q(x) is zero. Sign flips, integer additions, copies and re-parametrisation change the value accordingly and keep the parameters in agreement with it, and reduction to canonical form never changes the function represented. It is degenerate exactly when the function is constant.",
     ["inputs", "histories"], "all numerator/denominator coefficients up to the bound, all constants, all edit sequences up to the bound",
     "The evaluator tests fail today on the constant's type; canonicalisation has one call with no assertion.",
     ["lhs_evaluators.py"], [("evaluation", "lhs_evaluators.RationalFuncEvaluator._calc_val"), ("edits", "flip_sign, add_int, update_params"), ("reduction", "canonalize_params"), ("constant test", "is_degenerate")],
     [("params / numerator_p / denominator_p / added_int / val", "redundant representations of the function", "lhs_evaluators.py")], ["get_val", "get_params", "is_degenerate"])

prop("C12", "ULCD enumeration covers exactly the documented parameter set",
     "Enumerating ULCD left-hand sides yields each (u, l, c, d) of the cartesian product of its ranges with l and d nonzero and |c| < |d| exactly once, in a form whose value matches its parameters, and nothing else. An integer n stands for -n..n inclusive (1..n for d), a two- or three-element list for a half-open range with optional step.",
     ["inputs", "configurations"], "all range bounds and steps up to the bound, all range notations",
     "Two fixed list-range cases; integer notation, steps and the value of the reused object are untested.",
     ["lhs_evaluators.py"], [("ranges and generator", "lhs_evaluators.ULCDEnumerator")], None, ["generator output"])

prop("C13", "Rational-function enumeration covers exactly the documented set",
     "Enumerating rational left-hand sides yields each pair of numerator and denominator coefficient choices exactly once, skipping exactly those with a zero polynomial, those where both are constants, those with smaller numerator than denominator degree when bigger numerators are demanded, and those whose numerator or denominator vanishes at the constant; the added integer is zero and each object is independent of the later ones.",
     ["inputs", "configurations"], "all range bounds, degrees and constants up to the bound, both option values",
     "Three fixed cases of degree one.",
     ["lhs_evaluators.py"], [("generator", "lhs_evaluators.RationalFuncEnumerator.generator")], None, ["generator output"])

prop("C14", "Results are declared equivalent only when they state the same identity",
     "Two results are declared equivalent only if their b polynomials are the same, their a polynomials are equal or negatives of each other, their post-processing functions are equal (or, for rational left-hand sides, inverse to each other), and their left-hand sides are of the same kind and equal as functions of the constant up to sign for ULCD, or up to an added constant (with one inverted for inverse post-processing) for rational functions. Every result is equivalent to itself. Conversely, with equal functions, the same b polynomials and equal or negated a polynomials, ULCD results without post-processing are declared equivalent when their parameters differ by sign changes that keep the function up to sign or by (2u, l/2, 2c, 2d), and rational ones when their functions differ by a constant.",
     ["inputs"], "all ULCD parameters, all rational functions up to the degree bound, all polynomial pairs and post-processing indices",
     "No test calls the equivalence; a false positive silently discards a discovered formula.",
     ["lhs_evaluators.py", "postprocfuncs.py"], [("ULCD", "lhs_evaluators.ULCDEvaluator.is_equiv"), ("rational", "lhs_evaluators.RationalFuncEvaluator.is_equiv"), ("inverse pairs", "postprocfuncs.INVERSE_POSTPROC_PAIRS")], None, ["is_equiv", "MITM.filter_uniq_params"])

prop("C15", "Duplicate filtering keeps exactly one representative per equivalence",
     "Filtering a list of results for uniqueness keeps, in the original order and unchanged, exactly those results that are not equivalent to an earlier kept one; the first result always survives, no kept result is equivalent to an earlier kept one, and repeating the filter changes nothing.",
     ["inputs"], "all result lists up to the length bound, with an arbitrary equivalence relation between them",
     "No test calls the filter; it must hold for every pattern of equivalences, not only for transitive ones.",
     ["enum_params.py"], [("pairwise filter", "enum_params.MITM.filter_uniq_params")], [("filtered_params", "current results", "enum_params.MITM")], ["MITM.get_filtered_params"])

prop("C16", "Hash-table lookup matches keys exactly by their digits at the table accuracy",
     "In a table of accuracy n, a stored entry is found, overwritten, tested for and deleted through any number (or decimal string) whose leading decimal digits agree with the stored key in the first n decimals (for keys in [0,1); for larger keys the digits of the integer part count towards the total), and through no other number. Deleting removes exactly that entry, missing keys behave as in a dictionary (KeyError, or the default for get and setdefault), and keys of other types are rejected.",
     ["inputs", "histories"], "all pairs/triples of keys, all accuracies, all operation sequences up to the bound",
     "There is no test of the table; the interesting inputs are pairs of numbers that agree in almost all digits.",
     ["decimal_hashtable.py"], [("key truncation", "decimal_hashtable.DecimalHashTable._manipulate_key"), ("mapping operations", "__getitem__, __setitem__, __delitem__, __contains__, get, setdefault")],
     [("accuracy", "number of key characters kept", "decimal_hashtable.py")], ["table[k]", "k in table", "del table[k]", "get", "setdefault"])

prop("C17", "Tables keep all entries through accuracy changes, serialisation and merging",
     "After the accuracy of a table is changed, entries stored earlier remain reachable through keys agreeing at the accuracy they were stored with, and storing under such a key replaces the old entry instead of duplicating it. Serialising and restoring a table preserves entries, accuracy and accuracy history. Merging a second table of the same accuracy keeps every entry of both, concatenating the value lists of common keys, leaves the second table unchanged, and tables of different accuracy are refused.",
     ["histories", "inputs"], "all keys, accuracies, operation sequences and table contents up to the bound",
     "There is no test of the table.",
     ["decimal_hashtable.py"], [("history", "decimal_hashtable.DecimalHashTable.update_accuracy"), ("serialisation", "__getstate__, __setstate__, __reduce__"), ("merge", "append_dict")],
     [("accuracy_history", "earlier accuracies", "decimal_hashtable.py")], ["table[k]", "pickle round trip", "append_dict"])

prop("C18", "Building the table stores every enumerated value under its own digits, once",
     "After a build, for every enumerated polynomial pair and every selected post-processing function whose value is finite and nonzero, the table contains that pair and function index exactly once, under the absolute value (its fractional part when integers are ignored), and contains nothing else; pairs whose value is undefined (including those whose direct evaluation divides by zero) are skipped without affecting the others. Extending the table, also over overlapping ranges or with further functions, keeps all old entries and adds exactly the missing ones.",
     ["inputs", "histories"], "all values of the enumerated continued fractions (including zero, undefined and colliding ones), all filters, all overlaps of successive builds up to the bound",
     "The one table test builds a single polynomial pair and fails on the current code base.",
     ["enum_params.py", "decimal_hashtable.py", "enum_poly_params.py"], [("table filling", "enum_params.MITM._iter2hashtalbe"), ("entry point", "enum_params.MITM.build_hashtable")], [("dec_hashtable", "value -> list of (polynomials, function index)", "enum_params.MITM")], ["MITM.dec_hashtable", "MITM.find_clicks"])

prop("C19", "Click search returns exactly the matching combinations",
     "Searching a left-hand-side range reports, for each enumerated non-degenerate left-hand side, every table entry stored under the digits of its absolute value (fractional part when integers are ignored) and no other, each once, as the polynomials, an independent copy of the left-hand side with its parameters, and the function index. Left-hand sides with undefined value produce no result and do not stop the search.",
     ["inputs"], "all left-hand-side values and table contents up to the bound",
     "The one search test uses a single left-hand side and fails on the current code base.",
     ["enum_params.py", "lhs_evaluators.py", "decimal_hashtable.py"], [("search", "enum_params.MITM.find_clicks")], [("filtered_params", "found clicks", "enum_params.MITM")], ["MITM.get_filtered_params"])

prop("C20", "Refined results state true identities to the requested number of digits",
     "Refinement keeps a click exactly when the post-processed continued fraction is finite and nonzero and agrees with the left-hand side in the first n decimals of the fractional parts of their absolute values when integers are ignored, and otherwise in the leading n+1 digits of the absolute values. Every kept result has had its left-hand side adjusted by sign and integer so that it equals the post-processed continued fraction itself to the digits compared, while polynomials, function index and convergence data are unchanged and order is preserved.",
     ["inputs"], "all pairs of real values (both signs, either side of an integer, fractional parts agreeing or differing in the last digits), all accuracies up to the bound",
     "No test refines anything; errors show only when the two values straddle an integer or have opposite signs.",
     ["enum_params.py", "lhs_evaluators.py"], [("comparison", "enum_params.MITM.compare_dec_with_accuracy"), ("adjustment", "enum_params.MITM._refine_clicks")], [("filtered_params", "current results", "enum_params.MITM")], ["MITM.get_filtered_params"])

prop("C21", "Result filters keep exactly the results they describe, unchanged and in order",
     "The root filter drops exactly the results one of whose b polynomials has a (numerically) real root within 0.001 of a positive integer; the exponential filter keeps exactly those whose continued fraction passes the fast-convergence test; the approach filter keeps exactly those whose estimated type is in the whitelist or not in the blacklist, attaching the estimate, skips those whose estimate fails, and refuses both or neither list. Kept results are unchanged and in order.",
     ["inputs"], "all root values, verdict patterns and approach types, all list lengths up to the bound",
     "No test calls the filters; a missing absolute value or a wrong comparison shows only for particular root positions.",
     ["enum_params.py"], [("roots", "enum_params.MITM.filter_pos_integer_roots_numerators"), ("exponential", "enum_params.MITM.filter_only_exp_convergence"), ("approach", "enum_params.MITM.filter_clicks_by_approach_type")], [("filtered_params", "current results", "enum_params.MITM")], ["MITM.get_filtered_params"])

prop("C22", "Distributed splitting partitions the search space",
     "Splitting coefficient ranges for distribution into 2^k parts yields 2^k lists of ranges such that every coefficient choice of the original ranges belongs to exactly one part and no part contains anything else; the original ranges are not modified, and an indivisible range is reported as an error. The part configuration files carry the ranges of their part, distinct table files and otherwise the settings of the original configuration.",
     ["inputs", "configurations"], "all range bounds, shapes and split depths up to the bound",
     "The module has no tests.",
     ["distribute_run.py", "configfile.py"], [("halving", "distribute_run.split_params"), ("files", "distribute_run.main")], None, ["split_params", "generated files"])

prop("C23", "Table file versioning never overwrites a table and always finds the newest",
     "For every set of files already present, generating chooses a name of the configured base with a version number greater than every existing version of exactly that base, so that no existing table is overwritten; using or expanding selects the existing version with the numerically greatest number of exactly that base. Missing extensions and version suffixes are completed, and files of other bases are ignored.",
     ["inputs", "configurations"], "all directory contents (version numbers, unversioned files, files of other bases) up to the bound, all three operations",
     "No test covers it; errors need ten or more versions or bases that are prefixes of each other.",
     ["configfile.py"], [("version choice", "configfile.ConfigParser._gen_hashtable_filename")], None, ["get_config()['hashtable_file']"])

prop("C24", "Configuration values are parsed to their documented meaning and survive saving",
     "Every configuration option is converted to its documented type, options that may be omitted take their documented default, unknown options are cast to the narrowest fitting type, unknown function, polynomial or left-hand-side names and illegal operations are rejected, and function names map to their position in the function list. Saving the parsed settings to a new configuration file and loading it gives the same settings.",
     ["inputs", "configurations"], "all integer values and range lists in the options, all subsets of omitted optional options, all function subsets up to the bound",
     "The configuration test file is empty.",
     ["configfile.py", "main.py"], [("parsing", "configfile.ConfigParser.__init__, _cast_param_val"), ("saving", "configfile.ConfigParser.set, main.main")], None, ["get_config()"])

prop("C25", "Greatest common divisor and polynomial substitution are mathematically exact",
     "The greatest common divisor of two integers divides both, is divisible by every common divisor, and carries the sign of the second argument unless that is zero. Substituting into a coefficient list gives the value of c_0 + c_1*x + c_2*x^2 + ... for every number x, with the empty list giving zero.",
     ["inputs"], "all integers up to the bound for the divisor, all coefficient lists up to the length bound and all x",
     "Four fixed examples each; the sign rule for a smaller first argument is not exercised.",
     ["utils.py"], [("Euclid", "utils.MathOperations.gcd"), ("substitution", "utils.MathOperations.subs_in_polynom")], None, ["return values"])

prop("C26", "Exported equations denote the results they are made from",
     "Every exported LaTeX equation, read as mathematics, has on its left the result's left-hand side as a function of the target constant and on its right the post-processing function applied to the result's continued fraction, expanded with the right terms to the requested depth (for root post-processing an algebraically equivalent form is allowed). Signs, unit and zero coefficients, added integers and both left-hand-side kinds are rendered so that the value is preserved.",
     ["inputs"], "all left-hand-side parameters and polynomial coefficients (including 0, 1, -1), all post-processing functions, all depths up to the bound",
     "No test renders anything; the special cases for 0, 1 and -1 interact.",
     ["latex.py", "lhs_evaluators.py", "postprocfuncs.py", "enum_params.py"], [("fraction", "latex.latex_cont_frac"), ("left-hand sides", "lhs_evaluators.ULCDEvaluator.get_latex_exp, RationalFuncEvaluator.get_latex_exp"), ("post-processing", "postprocfuncs.POSTPROC_FUNCS_LATEX"), ("assembly", "enum_params.MITM.get_results_as_eqns")], None, ["MITM.get_results_as_eqns"])

prop("C27", "Post-processing functions have their named value and safe domain behaviour",
     "Every post-processing function returns the value its name states wherever that is defined; at zero an inverse gives infinity and below zero a square root gives NaN instead of failing. Functions at consecutive even/odd positions are reciprocal to each other, exactly these pairs (in both orders) are recorded as inverse, and each function has a LaTeX form under the same name.",
     ["inputs"], "all real arguments (algebraic functions), all positions of the function list",
     "The test file is empty.",
     ["postprocfuncs.py"], [("functions", "postprocfuncs.POSTPROC_FUNCS, safe_inverse, safe_sqrt"), ("pairs", "postprocfuncs.INVERSE_POSTPROC_PAIRS")], None, ["EVALUATED_POSTPROC_FUNCS"])

prop("C28", "Run-time measurement adds up for every clock behaviour",
     "For every non-decreasing clock, successive measurements return the time since the previous measurement (or the start), they add up to the total from the start to the last measurement, the last measured time repeats the last returned value, and a second start does not disturb a running measurement. The progress iterator passes every item through in order (with its index when asked) whatever the clock does, and its day/hour/minute/second breakdown denotes the rounded number of seconds with minutes and seconds below 60 and hours below 24.",
     ["schedules", "inputs"], "all clock readings and numbers of measurements and items up to the bound",
     "One test with three real sleeps and tolerances of 30 to 100 ms; the progress iterator is untested.",
     ["utils.py"], [("stopwatch", "utils.MeasureRuntime"), ("progress", "utils.ProgressBar")], [("times", "the two latest readings", "utils.MeasureRuntime")], ["measure_time", "get_last_measured_time", "get_total_runtime", "iteration"])

prop("C29", "CSV export lists every result with its own values",
     "The exported file starts with the target name and the column titles and then has exactly one row per result, in order, holding that result's a and b polynomials, left-hand-side parameters and convergence data, the value of its post-processed continued fraction, and the value of its left-hand side.",
     ["inputs"], "all result lists up to the length bound with arbitrary polynomials, parameters and values",
     "No test exports anything.",
     ["enum_params.py"], [("export", "enum_params.MITM.export_to_csv"), ("recomputation", "enum_params.MITM.build_contfrac_from_params")], None, ["the written file"])

prop("C30", "Joining and repairing saved tables preserves their content",
     "Joining a directory of saved tables gives one table with every entry of every input, and never overwrites an existing output file. Repairing a saved table removes exactly the entries with a b polynomial that the enumeration's integer-root test rejects, removes keys left empty, keeps all others, and leaves the input file as it was.",
     ["inputs", "configurations"], "all table contents up to the bound, any number of input files up to the bound, output present or not",
     "The join test file is empty and the repair script has none.",
     ["join_hashtables.py", "fix_hashtable_filter_init_b_root.py", "decimal_hashtable.py"], [("join", "join_hashtables.main"), ("repair", "fix_hashtable_filter_init_b_root.main")], None, ["the written file"])

prop("C31", "A configured search runs every stage with the configured values",
     "A run started from a configuration uses the configured constant (with its index where it has one), ranges, functions and precisions in every stage: generating builds the table from the configured ranges and saves it under the chosen file name, expanding adds those of the configured ranges to the newest saved table and saves it as the next version, using and expanding leave the saved tables alone, and a search reports in its result files, next to a configuration file with the same settings, exactly the results left after the stages, never in place of those of an earlier search. An unknown constant stops the run before anything is written.",
     ["configurations"], "all constants and indices, operations, numeric settings",
     "The main test file is empty.",
     ["main.py", "enum_params.py", "configfile.py"], [("orchestration", "main.main")], None, ["files written", "stage calls"])

prop("C32", "Stored constants are correct to the requested precision",
     "Pi, e, the golden ratio, the Euler-Mascheroni constant, the two percolation constants (1 - 2 sin(pi/18) and 2 sin(pi/18)), zeta(2) to zeta(20) and Apery's constant are generated correctly, whatever precision is requested or already in force: up to a unit in the second last digit of that precision, as far as the digits are stored (98 digits after the point; 147 for pi and e). Feigenbaum's constants, which have no closed characterisation, are not covered.",
     ["inputs"], "all precisions",
     "Tests use a few constants to low accuracy; a wrong digit far into a literal goes unnoticed and makes true equations undiscoverable.",
     ["gen_consts.py"], [("literals", "gen_consts.py")], None, ["gen_*_const"])

prop("C33", "Approach-type estimation classifies convergence correctly",
     "The estimate samples, at an initial cutoff and every iters_step iterations after it (at least 6 positions, steps of at least 6), two successive differences of same-parity convergents for the even and for the odd convergents, and classifies by the factors by which they shrink. If the factor is the same (up to an eighth) at every position, E for the even and O for the odd convergents: the type is 'exp' when both exceed 1.1, with rate sqrt(min(E, O)); 'mixed' when exactly one exceeds it; 'poly2sympoly' when none does. If the factor of one or both parities grows tenfold from position to position (the other being constant), the type is 'super_exp' when the factors of both exceed 2 throughout the last quarter of the positions, otherwise 'undefined'. A position at which one parity does not move is left out for that parity; with fewer than six left there is no type (None). If nothing moves any more at the sampled positions the type is 'fast', and if only one parity stands still it is 'undefined'. For an error C*B**-i the rate is B and the coefficient C (the smaller one, if the two parities have different coefficients and the step is even). estimate_approach_type_and_params moves to earlier windows while the result is 'fast', so that a geometric error that vanished before the default cutoff is still classified 'exp' with its rate when it lasts beyond six positions of a halved window; if nothing moves in any of the windows it ends with 'fast'. (The fitted parameters of the polynomial type are not covered.)",
     ["inputs"], "all convergents, all window parameters",
     "No test; the classification depends on the values of all sampled convergents.",
     ["cont_fracs.py"], [("estimate", "cont_fracs.ContFrac.estimate_approach_type_and_params"), ("inner", "cont_fracs.ContFrac._estimate_approach_type_and_params_inner_alg")], None, ["get_approach_type_and_params"])

prop("C34", "An interrupted table write never destroys a saved table",
     "If a run that generates or expands a table stops at any point before or while saving it, every table saved earlier, whatever its version, is still there, unchanged and loadable; the same holds for the inputs when joining or repairing tables is stopped. A later save is again complete and under a new version.",
     ["crash_points", "configurations"], "every point of the save, all sets of versions already present",
     "No test interrupts a save.",
     ["main.py", "configfile.py", "join_hashtables.py", "fix_hashtable_filter_init_b_root.py"], [("save", "main.main"), ("versioning", "configfile.ConfigParser._gen_hashtable_filename, next_hashtable_filename"), ("scripts", "join_hashtables.main, fix_hashtable_filter_init_b_root.main")], None, ["files on disk"])

prop("C35", "Accuracy-limited runs execute the iterations their rate requires",
     "When a continued fraction's approach is known to be (super-)exponential with rate B and an accuracy e below one is requested, generating executes at most the given number of iterations and otherwise, up to one more, the least m for which B^(m-1)*e is at least one, so that the requested accuracy is reached; the result is that of a plain run of as many iterations. Without an accuracy, with another or no approach type, or after the fraction was re-initialised with other polynomials, all given iterations are executed. Refining with convergence data does so for a hundred digits more than are compared.",
     ["inputs", "histories"], "all accuracies and limits, a range of rates, all approach types, all coefficients, histories of runs, additions and re-initialisations",
     "No test gives an accuracy; too few iterations silently drop true results in the later filtering stages.",
     ["basic_representation_types.py", "cont_fracs.py", "enum_params.py"], [("number of iterations", "basic_representation_types.BasicContFracAlgo.gen_iterations"), ("approach data", "cont_fracs.ContFrac.set_approach_type_and_params, reinitialize"), ("use", "enum_params.MITM.refine_clicks_with_convergence_info")],
     [("_approach_type, _approach_params", "estimated type and (rate, coefficient)", "cont_fracs.ContFrac")], ["get_num_of_executed_iters", "get_p_q"])

prop("C36", "The working precision is the one most recently asked for",
     "Generating a constant at a precision, creating an enumeration or a search object, redefining a search object's settings, and resetting an enumeration's precision make exactly the precision asked for there the one all later arithmetic uses; generating a constant without a precision (or with zero) leaves it alone. Every constant generator returns the constant of its name and index at whatever precision.",
     ["histories", "configurations"], "all precisions, all histories of such operations up to the bound, all constants and indices",
     "No test changes the precision; a stale precision silently shortens all later values.",
     ["gen_consts.py", "enum_poly_params.py", "enum_params.py"], [("constants", "gen_consts.set_precision_decor, gen_*"), ("enumerations", "enum_poly_params.BasicEnumPolyParams.__init__, reset_precision"), ("search objects", "enum_params.MITM.__init__, redefine_settings")],
     [("mpmath.mp.dps", "the global working precision", "mpmath")], ["mpmath.mp.dps", "constant values"])

prop("C37", "Redefined settings act exactly like a newly configured search",
     "After an existing search object is given new settings (target and its name, handling of integer parts, table accuracy, chosen functions, function list with texts and LaTeX forms, polynomial class and its parameters, number of iterations, working precision), building the table, searching, refining and exporting do exactly what an object created with these settings does. The entries already in the table stay, are not stored a second time, and stay found; results of the earlier settings are dropped; the number of iterations is kept unless a new one is given, and the restriction to exponential convergence is kept.",
     ["inputs", "histories", "configurations"], "all pairs of settings, all values, whatever the object did before",
     "No test redefines settings; a single setting that is not taken over shows only in later results.",
     ["enum_params.py"], [("redefine", "enum_params.MITM.redefine_settings"), ("use", "enum_params.MITM.build_hashtable, find_clicks, refine_clicks_with_const_num_of_iters, export_to_csv, get_results_as_eqns")],
     [("dec_hashtable", "the table of fractions", "enum_params.MITM")], ["get_filtered_params", "table contents", "exported files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
