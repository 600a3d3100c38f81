prop("C01", "A satisfiability verdict agrees with the semantics of the script",
     "For every well-formed script over quantifier-free linear integer arithmetic with Booleans, uninterpreted functions and bit-vector equality that stays within the supported operations, the eager solver answers `unsat` only if no interpretation satisfies all assertions and `sat` only if one does. It gives such an answer for every script of the supported fragment, without error or panic. The answer does not depend on hash-map iteration order, on how a script is split over several commands, or on which frontend (library, streaming solver, program) is used.",
     ["inputs", "programs"], "all scripts of the supported fragment: any linear constraint shape (n-ary sums, coefficients, constants beyond 64 bits, ite, let, define-fun), any Boolean structure, any number of functions and sorts, any iteration order",
     TESTS + "soundness of the small-domain encoding quantifies over all formulas (bounds, cancelling terms, ground constraints, overflow of the chosen width), and random hashing makes each run a different sample.",
     [EA + f for f in ("canonicalize.rs", "stats.rs", "encoding.rs", "lib.rs", "main.rs")],
     [("canonicalisation to a.x OP b", EA + "canonicalize.rs: canonicalize_plus_inner, normalize_constraint"), ("solution bound (small-domain property)", EA + "stats.rs: solution_size_upper_bound_bits"), ("bit-blasting of sums and comparisons", EA + "encoding.rs: encode_plus_bitwise, encode_gte, encode_unsigned_gte_bitwise"), ("pipeline: Ackermannisation, encoding, CNF", EA + "lib.rs: encode_inner")],
     ["result of the library's solve call", "stdout and exit code of `solve`"],
     "differential run-time monitoring: concrete evaluation of returned models and of independent z3 models, debug assertions and overflow checks on",
     note="Every `sat` is confirmed by evaluating the tool's own model, every `unsat` is refuted only by a z3 model that our own evaluator confirms, so an alarm needs no trust in a solver; sampled by 20-odd generator families, not exhaustive.")
prop("C02", "Models returned with `sat` satisfy the script and are well-formed",
     "Whenever the eager solver answers `sat` and prints or returns a model, the values the model assigns are of the right sorts, and every assertion evaluates to true under it, however the symbols the model leaves out are interpreted. Functions are functional (equal arguments, equal results).",
     ["inputs", "programs"], "all satisfiable scripts of the supported fragment, including values wider than 64 bits, negative values, bit-vectors of any width, functions of any arity",
     TESTS + "decoding is exercised for a few values that fit easily in a machine word.",
     [EA + f for f in ("encoding.rs", "lib.rs", "main.rs")],
     [("decoding of two's-complement bits", EA + "encoding.rs: decode"), ("model reconstruction", EA + "lib.rs: reconstruct")],
     ["model returned by the library", "model printed by `solve`"],
     "run-time monitor: an independent evaluator runs every assertion under the returned model",
     note="Alarm only on a concrete falsified assertion or missing/ill-sorted value, by our evaluator; sampled.")
prop("C03", "The emitted DIMACS encoding is well-formed, equisatisfiable and complete",
     "Whatever script is encoded, the emitted CNF is well-formed DIMACS whose header counts exactly the clauses and covers all the variables that follow, and it is satisfiable if and only if the script is. If the sink fails or accepts only part of the output at any point, encoding reports an error instead of success with a truncated file.",
     ["inputs", "fault_sequences"], "all scripts of the supported fragment; all sinks, with an I/O error or short write at any byte offset; any behaviour of the optional external minimiser",
     TESTS + "no test reads a CNF back or lets a write fail.",
     [EA + f for f in ("encoding.rs", "lib.rs", "main.rs")],
     [("CNF written to the sink and flushed", EA + "lib.rs: encode, encode_inner"), ("output file and minimiser", EA + "main.rs: main")],
     ["bytes written to the sink", "result of encode", "exit code of `encode`"],
     "run-time monitor over the written bytes: independent DIMACS parser and SAT solving of the CNF, injected sink faults at every kind of offset",
     note="The CNF is judged by an independent SAT solver (unsat CNF contradicted by an evaluated z3 model; satisfiable CNF of a script that z3 and cvc5 refute). Faults are injected at sampled offsets including first, last and header-patch writes.")
prop("C04", "Reported encoding statistics are the documented functions of the script",
     "The statistics that the tool prints about a script (number of variable partitions, of variables, constraints, maximal coefficients and bits per partition) are those of the script, as documented: variables are in one partition exactly when linked by a chain of shared constraints, and the bit width is sufficient for the documented solution bound.",
     ["inputs"], "all scripts of the supported fragment, with any chain of constraints linking variables, any coefficients",
     TESTS + "the tests never look at these numbers, although they size the encoding and feed the prediction models.",
     [EA + f for f in ("stats.rs", "canonicalize.rs")] + ["amzn-smt-eager-arithmetic/README.md"],
     [("union of partitions and the bound", EA + "stats.rs: StatsVisitor, Stats")],
     ["statistics lines on stdout"],
     "run-time monitor: reported partition statistics compared with an independent computation from the script",
     note="Independent reimplementation of the documented bound; the width may exceed it by one bit (representation); only script shapes whose canonical form is unambiguous are compared.")
prop("C05", "A faulty external SAT solver never produces a verdict",
     "With an external solver program that follows the SAT-competition conventions, `solve` prints the right verdict and a satisfying model, whatever legal layout the solver's output has. If the external solver is missing, crashes, is killed, or prints no complete well-formed answer, `solve` reports failure and prints no verdict.",
     ["fault_sequences", "inputs"], "all scripts; all legal output layouts (comments, v-lines split anywhere, exit codes) and all failures of the external program at any point of its run",
     "The tests do not start an external solver at all.",
     [EA + "lib.rs", EA + "main.rs"],
     [("invoking the external solver and reading its answer", EA + "main.rs: main"), ("turning the assignment into a verdict and model", EA + "lib.rs: solve, reconstruct")],
     ["stdout, stderr and exit code of `solve`"],
     "fault injection with stand-in solver programs; output monitor with model evaluation", "fault_enumeration",
     note="25 wrapper behaviours times random scripts; z3 plus our evaluator as oracle; the model/verdict of a solver that claims sat without a full model is only required not to be wrong.")
prop("C06", "Scripts outside the supported fragment are rejected, not misjudged",
     "For a script that uses anything the eager solver does not support, or that is malformed, unreadable or retracts assertions, the solver either reports an error or gives the right verdict. It never prints a verdict that is wrong for what the script says, also in a build without debug assertions.",
     ["inputs", "programs"], "all scripts: every SMT-LIB command and theory construct, malformed text, any I/O error while reading at any offset",
     "The tests use only supported scripts.",
     [EA + f for f in ("lib.rs", "canonicalize.rs", "stats.rs", "encoding.rs", "main.rs")],
     [("errors for unsupported commands; reading the script", EA + "lib.rs: encode_inner"), ("errors for unsupported terms", EA + "encoding.rs, stats.rs")],
     ["stdout and exit code of `solve`", "result of the library's solve call"],
     "run-time monitoring of a release-like build on mutated, unsupported and unreadable scripts, verdicts compared with z3's evaluated models",
     note="Sampled mutations and a grid of constructs outside the fragment; a verdict is wrong only if z3's model (evaluated) or two solvers contradict it.")
ST = "amzn-smt-string-transformer/src/"
prop("C07", "A transformed script is the original up to renaming and string literals",
     "The script that `convert` writes is the original one command by command and term by term, except that string literals are replaced and that declared, defined and bound symbols are renamed. The renaming is injective, applied to every occurrence, never captures a bound symbol, keeps declarations in front of their uses, and is the one that the mapping file reports.",
     ["inputs", "programs"], "all scripts over the supported string functions, with any settings, sorts, functions, definitions, binders, scopes and names (also names that the tool itself generates)",
     TESTS + "a handful of literal round-trip examples cannot show that no term of any other shape is dropped, reordered or captured.",
     [ST + f for f in ("transpiler.rs", "transpiler_visitors.rs", "subformula_parser.rs", "main.rs")],
     [("lifting and renaming of variables", ST + "transpiler_visitors.rs: IdentifyStringsBuilder"), ("restoring the original query shape", ST + "subformula_parser.rs: reconstruct_orig_query_shape"), ("order of the written commands", ST + "transpiler.rs: transform_ast")],
     ["<input>_transformed.<ext>", "<input>_mapping.json: alpha_renaming_map"],
     "trace monitor: the written script, read by an independent reader, is aligned with the original term by term",
     note="Oracle is a structural isomorphism check that trusts nothing of the tool; sampled by 11 families with awkward names; assertions of the form t = t may be dropped.")
prop("C08", "String literals are replaced consistently, injectively and as reported",
     "In a transformed script, occurrences of equal strings (however they are escaped) become equal strings and occurrences of different strings become different ones. The empty string stays empty, and the mapping file contains exactly the replacement that was made.",
     ["inputs", "programs"], "all scripts over the supported string functions and all literals, including escapes, quotes, backslashes, control and non-ASCII characters; both modes",
     TESTS + "a collision needs particular sets of related literals.",
     [ST + f for f in ("string_mappings.rs", "mapping_tools.rs", "transpiler.rs")],
     [("mapping of literals", ST + "string_mappings.rs: map_string_char_to_char, map_string_no_reconstruct"), ("escapes", ST + "transpiler.rs: decode_escapes, encode_escapes"), ("mapping file", ST + "mapping_tools.rs: Mapping")],
     ["literals of <input>_transformed.<ext>", "<input>_mapping.json: string_map"],
     "trace monitor over all aligned literal occurrences and the mapping file",
     note="Literals are compared as sequences of denoted characters; sampled, related and hostile literal pools.")
prop("C09", "char-to-char applies one injective, range-preserving character map",
     "In char-to-char mode all literals are mapped character by character by one injective function, which is the one in the mapping file. A `re.range` keeps its width and contains exactly the images of the characters it contained, digits stay themselves where strings are converted from or to integers, and digits stay digits where they are tested for.",
     ["inputs", "programs"], "all scripts over the supported string functions, with any overlapping, nested or adjacent ranges, in any part of the character set",
     TESTS + "range layout depends on how all ranges and characters of a script interact.",
     [ST + f for f in ("string_mappings.rs", "transpiler.rs", "string_fcts.rs")],
     [("layout of ranges and kept digits", ST + "transpiler.rs: initialize_charmap_with_ranges, initialize_charmap_with_keep_ints"), ("mapping of characters", ST + "string_mappings.rs: map_string_char_to_char")],
     ["literals of <input>_transformed.<ext>", "<input>_mapping.json: char_map"],
     "trace monitor over all aligned characters, ranges and the mapping file",
     note="Purely structural oracle; sampled.")
prop("C10", "The transformed script is equisatisfiable with the original",
     "A script that `convert` transforms (in either mode) is satisfiable if and only if the original is. In particular the truth of every assertion under a known assignment of the variables is preserved by the mapping.",
     ["inputs", "programs"], "all scripts over the supported string functions, all related literals (shared prefixes, suffixes, substrings), both modes",
     TESTS + "soundness depends on how string properties flow between literals and variables in the call graph, over all formulas.",
     [ST + f for f in ("transpiler.rs", "transpiler_visitors.rs", "callgraph.rs", "forest.rs", "string_fcts.rs", "string_mappings.rs")],
     [("required string properties per function", ST + "string_fcts.rs: get_required_props"), ("propagation through the call graph", ST + "callgraph.rs, forest.rs: propagate_all, partitions"), ("mappings that keep these properties", ST + "string_mappings.rs: gen_string_keep_substrings, respects_required_props")],
     ["<input>_transformed.<ext>"],
     "differential run-time monitoring: both scripts are evaluated by an independent string evaluator under forced assignments; solver models only when the evaluator confirms them",
     note="Exact (evaluator-decided) for scripts whose variables are pinned; free-variable scripts need a confirmed model on one side and refutation by z3 and cvc5 on the other. Free variables with no-reconstruct only for equalities and lengths: beyond that the mode is known to be incomplete (two known findings).")
prop("C11", "reconstruct turns a solution of the transformed script into one of the original",
     "After a char-to-char conversion, for any solution of the transformed script that a solver prints, `reconstruct` writes the original query with one equation per affected string variable, and these values (with the solution's other values) satisfy the original script. For the answers unsat, unknown, timeout and sat without model it reports just that, and for missing or unreadable results it reports failure.",
     ["inputs", "programs"], "all supported scripts, all solutions (also with characters that occur in no literal), all spellings and layouts of printed models",
     TESTS + "no test reconstructs a model from a solver's output.",
     [ST + f for f in ("reconstruct_tools.rs", "mapping_tools.rs", "transpiler.rs")],
     [("reversing the character map", ST + "reconstruct_tools.rs: reconstruct_string, build_string_var_assertions"), ("adding the assertions", ST + "reconstruct_tools.rs: add_asserts_to_original_problem"), ("mapping file", ST + "mapping_tools.rs: Mapping::build_from_json_file")],
     ["stdout and exit code of `reconstruct`", "<input>_recon_check.<ext>"],
     "run-time monitor: reconstructed values are evaluated in the original script by an independent evaluator",
     note="Solutions come from z3 and from planted assignments, each first confirmed by evaluating the transformed script; sampled.")
prop("C12", "Every script is transformed correctly or explicitly bailed out of",
     "`convert` terminates normally on every well-formed script. A script that only uses supported string functions is transformed, and one that uses strings in any other way is either bailed out of with the documented message or still transformed correctly; a malformed or unreadable script is reported as such, never cut short.",
     ["inputs", "programs"], "all well-formed scripts: every string function, any nesting, size and binding construct, empty, single and ill-formed ranges",
     TESTS + "the tests use no unsupported construct.",
     [ST + f for f in ("main.rs", "transpiler.rs", "transpiler_visitors.rs", "string_fcts.rs", "string_mappings.rs")],
     [("bailing out", ST + "main.rs: convert"), ("failed variables", ST + "transpiler.rs: transform_ast"), ("unsupported contexts", ST + "transpiler_visitors.rs: mark_unsupported")],
     ["exit code of `convert`", "<input>_transformed.<ext>"],
     "run-time monitoring of hostile and unsupported scripts, verdicts by an independent evaluator",
     note="Termination within 120 s on scripts of up to some 100 terms; sampled grid of unsupported constructs.")
prop("C13", "The persistent global map never makes a later transformation wrong",
     "With `--use-global-map`, each conversion is correct (equal verdict under forced assignments, injective literal map) whatever conversions came before or run at the same time, in whatever mode, and even if the map file was cut off by a crash. Converting a query over equalities again right away yields the same text, unless the map could not keep all of the replacements.",
     ["histories", "schedules", "crash_points"], "all sequences of conversions that share a map, with any related literals and modes; overlapping conversions; any truncation of the map file between two conversions",
     TESTS + "no test runs more than one conversion with a shared map.",
     [ST + f for f in ("transpiler.rs", "string_mappings.rs", "mapping_tools.rs", "main.rs")],
     [("reading and pruning the persistent map", ST + "transpiler.rs: transform_ast, prune_persist_string_map"), ("reuse of mappings", ST + "string_mappings.rs: map_string_no_reconstruct, gen_string_keep_substrings"), ("writing the map", ST + "mapping_tools.rs: print_json_to_file")],
     ["<input>_transformed.<ext> of every step", "global_mapping.json"],
     "history monitor over sequences of conversions with injected truncations, verdicts by an independent evaluator",
     note="Histories of up to 6 steps, sampled.")
prop("C14", "sub-formula lists exactly the function applications, variables normalized",
     "The list that `sub-formula` writes consists of all function applications that occur in the assertions, definitions and queried terms of the script, and of nothing else. In each of them the variables are renamed to v0, v1, ... in the order of their appearance, so that two subformulas are listed as the same text exactly if they are equal up to the names of variables.",
     ["inputs", "programs"], "all scripts: any theory, nesting, definitions, binders, names (also names such as v0)",
     TESTS + "there is no test of this command.",
     [ST + f for f in ("subformula_parser.rs", "main.rs")],
     [("collecting and normalizing subformulas", ST + "subformula_parser.rs: find_string_subforumlas"), ("output", ST + "main.rs: find_subformulae")],
     ["<input>_recon.json"],
     "run-time monitor: the written list is compared as a multiset with the one an independent reader computes",
     note="Applications that contain a binder are only counted, since the order of bound names is not documented; sampled.")
UP = "amzn-smt-string-fct-updater/src/"
prop("C15", "The updater rewrites exactly the old string syntax and nothing else",
     "The updated script is the input command by command and term by term, except that the old function names, `re.nostr`, three-argument `re.loop` and complete z3 escape sequences are replaced by their SMT-LIB 2.6 forms, so that all literals and terms keep their meaning. A modern script comes back unchanged, updating twice is updating once, the result is written next to the input under the same extension, and a malformed script is reported instead of cut short.",
     ["inputs", "programs"], "all scripts of all commands and theories: any nesting, binders, look-alike names, any sequence of complete and incomplete escapes, layout and comments",
     "The crate has no tests.",
     [UP + f for f in ("transpiler.rs", "main.rs")],
     [("renaming of functions and re.loop", UP + "transpiler.rs: ModernizeStringsBuilder::fold_uninterpreted_func, fold_var"), ("escape sequences", UP + "transpiler.rs: convert_z3escapes"), ("files", UP + "main.rs: main")],
     ["<input>_upt.<ext>"],
     "trace monitor: the written script, read by an independent reader, is compared command by command with the specified rewriting; old forms of modern scripts must come back as the modern ones",
     note="Sampled. Outside: escaped backslashes (undocumented), attributes, `as`, indexed identifiers of unknown functions, define-fun-rec and get-option, which the dependency aws-smt-ir already loses or misprints.")
prop("C16", "The updater adds exactly the logic that a script needs",
     "A script without set-logic gets exactly one, behind its leading options and in front of everything else: QF_SLIA if any of its terms uses arithmetic and QF_S otherwise. A script with a logic keeps it, and every readable script, also one that is empty or consists of options only, is converted.",
     ["inputs", "programs"], "all headers of options and infos in any order, all places where arithmetic can occur, any nesting and length",
     "The crate has no tests.",
     [UP + f for f in ("transpiler.rs", "main.rs")],
     [("guessing and inserting the logic", UP + "transpiler.rs: modernize_string_fcts"), ("finding arithmetic", UP + "transpiler.rs: fold_theory_op")],
     ["<input>_upt.<ext>", "exit code"],
     "trace monitor over the written script; cvc5 as reader of sorted scripts",
     note="Sampled; str.len and comparisons of strings do not count as arithmetic (cvc5 reads them in QF_S).")
PR = "amzn-smt-prediction/"
SC = PR + "scripts/"
prop("C17", "Offline features are exact counts of string operators",
     "For every benchmark list and data set, the written CSV has the header of the data set and one row per benchmark in the order of the list, which counts for each operator of the header its occurrences in the assertions of that benchmark, with shared and nested terms counted as often as they are written. If a benchmark can't be read to its end (missing, malformed, a directory), the run fails and the rows in front of it are intact.",
     ["inputs", "programs"], "all lists of scripts of all theories: any nesting, binders, sharing, look-alike symbols and literals; missing and malformed benchmarks at any position",
     "The crate has no tests.",
     [PR + "src/main.rs"],
     [("counting", PR + "src/main.rs: the visitors of string functions"), ("columns", PR + "src/main.rs: the data sets"), ("rows", PR + "src/main.rs: main")],
     ["off_features_<name>.csv", "exit code"],
     "run-time monitor: the rows are compared with the counts of an independent reader",
     note="Sampled. Literals, comments and quoted symbols that look like operators are included.")
prop("C18", "Online features are the word counts of each benchmark's own solver output",
     "After get_solver_output, get_word_counts and get_word_count_features have run on a list, row i is the histogram, over the buckets, of the numbers of words per line of what the solver printed for benchmark i, whatever the names of the benchmarks and whether or not the solver ended within the time limit. The solver is started once per benchmark, on that file, with the chosen options.",
     ["inputs", "schedules"], "all lists of distinct benchmark names (special characters, related names), all outputs, solvers that exceed the time limit after any output",
     "The scripts have no tests.",
     [SC + f for f in ("get_solver_output.py", "get_word_counts.py", "get_word_count_features.py")],
     [("running the solver", SC + "get_solver_output.py: get_cvc4_output, get_z3_output"), ("file names", SC + "get_solver_output.py: __main__"), ("counting words", SC + "get_word_counts.py: write_word_counts"), ("histogram", SC + "get_word_count_features.py: get_features")],
     ["<solver>_output/features/on_features_*.csv", "arguments that the solver received"],
     "run-time monitor: recorded runs of a stand-in solver compared with the rows the scripts write",
     note="Sampled. Known finding: paths that differ only in / versus _ share their files.")
prop("C19", "Predictions are made from the problem's own features and reported as given",
     "For every problem, configuration and moment, each model endpoint that applies receives exactly the features of that problem (offline and online features, normalized where configured; or the merged statistics of all partitions), also if the solver exceeds its time limit or several predictions run at once. What is printed is the endpoint's answer with its confidence (in full verbosity also these features), and the script fails if a needed endpoint is missing.",
     ["inputs", "configurations", "schedules"], "all problems, paths, solver outputs and partition statistics; all combinations of buckets, means, deviations, FMF, verbosity and endpoints; concurrent runs in one directory",
     "The scripts have no tests.",
     [SC + f for f in ("generate_predictions.py", "run_eager_v_lazy.py", "clean_eager_lazy_data.py", "get_word_count_features.py", "get_solver_output.py")],
     [("runtime model", SC + "generate_predictions.py: do_runtime_prediction, normalize_features"), ("configuration model", SC + "generate_predictions.py: do_solver_configuration"), ("eager versus lazy", SC + "generate_predictions.py: do_eager_lazy, parse_eager_encoding_output"), ("merging partitions", SC + "clean_eager_lazy_data.py: get_naive_big_encoding, compute_bound"), ("racing solvers", SC + "run_eager_v_lazy.py: __main__")],
     ["calls of the endpoints", "stdout and exit code", "fastest_solver.csv and features.csv"],
     "run-time monitor: calls recorded by stand-ins for the endpoints and solvers compared with independent counters",
     note="Sampled; SageMaker and CVC4 are stand-ins, amzn-smt-prediction and amzn-smt-eager-arithmetic are real. Outside: problems without any partition, variable names with newlines, solvers that crash.")
prop("C20", "Prepared data sets pair each benchmark with its own values",
     "The scripts that prepare training data write, in the order of their input, exactly the benchmarks that qualify (family, solver, exclusions, time ranges; faster or slower with --strings-fmf), each with its own time, fastest solver and features. Files that belong together have the same benchmarks in the same order, and modernize_benchmarks writes the updated version of each listed benchmark and nothing else.",
     ["inputs"], "all result files, exclusion lists, orders of the statistics, numbers of partitions, ties, file names; times at the limits",
     "The scripts have no tests.",
     [SC + f for f in ("clean_smt_comp_results.py", "clean_eager_lazy_data.py", "find_faster_fmf.py", "modernize_benchmarks.py")],
     [("selecting benchmarks", SC + "clean_smt_comp_results.py: __main__"), ("joining results and statistics", SC + "clean_eager_lazy_data.py: __main__, get_naive_big_encoding"), ("splitting by speed", SC + "find_faster_fmf.py: __main__"), ("updating", SC + "modernize_benchmarks.py: __main__")],
     ["the CSV files written by the scripts", "the updated benchmarks"],
     "run-time monitor: the written rows are compared with those an independent specification gives",
     note="Sampled; the published results of the repository are included.")
prop("C21", "The analysis of an experiment tells what happened to each query",
     "data_processing.py gives one row per query of an experiment (directory of the outputs of test_and_transform.sh, or list of queries), and every row tells what happened to that query: the first line of each solver's output in lower case, with errors, missing check-sat and timeouts told apart, the user time of each stage that finished, the sizes of the files and the number of literals mapped char-to-char; whatever stage is missing, printed messages or was cut off; the summary table counts and averages just these rows. pairwise_diff_count.sh lists, for each transformed query of a directory, those that equal it and their number, and changes no file; parallel_test_transform_list.sh runs each query of a list once, with the solver, directory, map flag and solver options it was given.",
     ["inputs", "crash_points"], "all outputs of solvers, times, file sizes, mappings; stages that print to stderr, crash or are killed at any point of the experiment; directories with other files; lists with empty lines and subdirectories",
     "The script has no tests.",
     ["amzn-smt-string-transformer/data_processing.py", "amzn-smt-string-transformer/pairwise_diff_count.sh", "amzn-smt-string-transformer/parallel_test_transform_list.sh"],
     [("equal queries", "amzn-smt-string-transformer/pairwise_diff_count.sh"), ("batches", "amzn-smt-string-transformer/parallel_test_transform_list.sh"), ("results of a query", "amzn-smt-string-transformer/data_processing.py: get_SAT_results, get_result_from_file"), ("times of the stages", "amzn-smt-string-transformer/data_processing.py: get_timings, get_timing_for_mode, get_seconds"), ("sizes and mapping", "amzn-smt-string-transformer/data_processing.py: get_filesizes, get_map_info"), ("summary", "amzn-smt-string-transformer/data_processing.py: get_summary_table")],
     ["the tables ret_frame and rel_results", "get_summary_table, printDFToFile"],
     "run-time monitor: the tables and lists that the scripts build are compared with the known course of simulated and of really run experiments",
     note="pandas and matplotlib aren't installed: the script runs with stand-ins that follow pandas where the script depends on it (missing numbers, means, deviations); what they lack makes a case inconclusive. Plots are not checked.")
