"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})


prop("C01", "Iterating a suite yields exactly the selected problems, once each, in order",
     "For every suite name, suite_instance string and suite_options string, coco_suite_get_next_problem returns exactly the selected dimensions x functions x instances, each once, dimension-major, then by function, then by instance, then NULL, after which the iteration starts over; every returned problem's id, name, dimension, objective count and index belong to the triple whose turn it is. "
     "The selection follows the documented grammar: ranges n, n-m, -n, n- and - in the given order, clamped to what the suite offers, 'instances' or 'year' (a year maps to that suite's documented instance list), the later of two exclusive keys is ignored, and items from the first ill-formed or out-of-range one on are ignored, as is an option of which nothing remains; a 'dimensions' option that selects no dimension yields no suite (NULL). "
     "coco_suite_get_number_of_problems is the size of that selection, where functions and dimensions removed by *_indices/dimensions options count as selected positions that yield no problem.",
     ["inputs", "configurations", "histories"], "all suites; all option strings of the grammar up to the explored length, all orders of the option keys, all instance lists and years",
     "tests iterate a handful of suites with default options; the filters, clamps, range endings and key precedences combine into thousands of selections",
     ["src/coco_suite.c", "src/coco_string.c", "src/coco_utilities.c"],
     [("coco_suite_t.functions/dimensions/instances", "the selection; 0 marks a filtered-out entry", "src/coco_internal.h"),
      ("current_*_idx", "iterator position, -1 before the first problem", "src/coco_suite.c")],
     [("coco_suite_set_instance / coco_suite_filter_ids / coco_suite_filter_dimensions", "src/coco_suite.c"),
      ("coco_suite_is_next_item_found and friends", "src/coco_suite.c"), ("coco_string_parse_ranges", "src/coco_string.c")],
     ["coco_suite", "coco_suite_get_next_problem", "coco_suite_get_number_of_problems", "coco_problem_get_id"])

prop("C02", "Every way of addressing a problem of a suite denotes the same problem",
     "encode_problem_index and decode_problem_index are mutually inverse bijections between index triples and 0..number_of_problems-1, and the i-th unfiltered problem of the iteration, coco_suite_get_problem(i), and coco_suite_get_problem_by_function_dimension_instance of its triple return problems with the same id, name, index, shape, bounds, initial solution and function values. "
     "coco_suite_get_{function,dimension,instance}_from_*_index return the numbers that appear in that problem's id, of several positions with an equal triple the first is addressed by that triple, and an index or triple that is not in the selection yields NULL, never another problem.",
     ["inputs", "configurations"], "all problem indices (in and out of range) and all triples of every explored selection of every suite",
     "tests address few indices by one path; agreement has to hold for every index of every filtered selection",
     ["src/coco_suite.c"],
     [("suite_dep_index", "index stored in the problem", "src/coco_suite.c")],
     [("coco_suite_encode_problem_index / decode", "src/coco_suite.c"), ("coco_suite_get_problem_from_indices", "src/coco_suite.c")],
     ["coco_suite_get_problem", "coco_suite_get_problem_by_function_dimension_instance", "coco_suite_decode_problem_index"])

prop("C03", "Evaluation counters, best-so-far value and target flag follow the history",
     "After any sequence of function and constraint evaluations on a problem, coco_problem_get_evaluations and get_evaluations_constraints equal the numbers of coco_evaluate_function and coco_evaluate_constraint calls with finite input; best_observed_fvalue1 is the smallest returned value over the feasible ones of these evaluations, and final_target_hit is true exactly when it is at or below the optimum plus 1e-8. "
     "A call with an infinite coordinate returns +inf in every component and one with a NaN (and no infinite) coordinate returns NaN, and neither counts; recommendations, queries and activity on other problems never change these observables.",
     ["histories", "inputs"], "all sequences of evaluate / evaluate-constraints / recommend / query calls up to the bound over an alphabet of feasible, infeasible, optimal, out-of-domain, NaN and infinite points, on plain, constrained, noisy, mixed-integer, boxed and observed problems",
     "unit tests check counters after one fixed call pattern; interactions of feasibility checks, special values, and observer wrapping depend on the order of calls",
     ["src/coco_problem.c", "src/coco_utilities.c"],
     [("evaluations, evaluations_constraints, best_observed_fvalue", "bookkeeping of the outermost problem", "src/coco_internal.h")],
     [("coco_evaluate_function / coco_evaluate_constraint_optional_update", "src/coco_problem.c"), ("coco_is_feasible", "src/coco_utilities.c")],
     ["coco_problem_get_evaluations", "coco_problem_get_evaluations_constraints", "coco_problem_get_best_observed_fvalue1", "coco_problem_final_target_hit"])

prop("C04", "Function and constraint values depend only on the problem and the point",
     "For every deterministic problem, the objective and constraint values of a point are bit-identical however and whenever they are computed: after any other evaluations, constraint evaluations or recommendations, with any other problems of any suite created, evaluated or freed in between, for any re-creation of the problem, in any order. "
     "The evaluation never modifies the caller's vector x, and metadata (bounds, ids, names, initial solution, best value) is unaffected by evaluations and by other problems.",
     ["histories", "schedules"], "all interleavings up to the bound of operations on two live problems (same or different function, dimension, instance, suite) plus creation and destruction of a third",
     "a test evaluates a point in one context; caches, scratch buffers and shared generators only show in particular interleavings",
     ["src/coco_problem.c", "src/transform_vars_*.c", "src/transform_obj_*.c", "src/f_*.c", "src/suite_bbob_legacy_code.c"],
     [("problem->data", "per-problem scratch vectors and transformation matrices", "src/f_*.c, src/transform_*.c")],
     [("coco_problem_transformed_t / stacked problem evaluation", "src/coco_problem.c")],
     ["coco_evaluate_function", "coco_evaluate_constraint"])

prop("C05", "The declared optimum is attained, feasible, inside the domain and never beaten",
     "For every single-objective problem of every suite, the stored best parameter lies in the region of interest (for mixed-integer problems at integer coordinates), satisfies the constraints, and evaluates to the declared best value up to rounding; no admissible point evaluates to a smaller value. "
     "For every bi-objective problem the ideal values are those of its two objectives' optima and the declared largest f-values of interest (nadir) are each objective's value at the other one's optimum, strictly above the ideal.",
     ["inputs", "configurations"], "all functions, dimensions and the explored instances of all suites; all points of the explored grids around the optimum and over the domain",
     "tests check few instances; the target values of every experiment hang on the declared optimum of every single instance",
     ["src/suite_bbob_legacy_code.c", "src/f_*.c", "src/suite_cons_bbob_problems.c", "src/transform_vars_*.c", "src/suite_biobj_utilities.c", "src/suite_bbob_mixint.c"],
     [("best_parameter, best_value, nadir_value", "declared optimum", "src/coco_internal.h")],
     [("transformations' best_parameter/best_value updates", "src/transform_vars_*.c, src/transform_obj_*.c")],
     ["coco_problem_get_best_parameter", "coco_problem_get_best_value", "coco_problem_get_largest_fvalues_of_interest", "coco_evaluate_function"])

prop("C06", "Benchmark problems are what they were: same definition for every problem",
     "For every problem (suite, function, dimension, instance), the objective and constraint values at every point, the number of objectives, constraints and integer variables, the bounds, the initial solution, the best value, the id, name and type are those of the published benchmark as implemented at the pinned commit (values up to floating-point rounding). "
     "In particular bbob-boxed is +inf outside its box, bbob-constrained and bbob-largescale keep their rotations and constraints, and the two objectives of a bbob-biobj* problem are the bbob (or bbob-mixint) problems of its published function and instance pair.",
     ["inputs", "configurations"], "all functions and dimensions of all suites over the explored instances, evaluated at a fixed set of points inside, on the border of and outside the domain",
     "the regression tests sample few points of few problems; comparability of published results needs every problem of every suite unchanged",
     ["src/suite_*.c", "src/f_*.c", "src/transform_*.c", "src/suite_bbob_legacy_code.c"],
     [("problem graph", "function composed with its transformations", "src/suite_*.c")],
     [("get_*_problem constructors", "src/suite_*.c")],
     ["coco_evaluate_function", "coco_evaluate_constraint", "coco_problem_get_*"])

prop("C07", "Observers never change what the solver sees",
     "Attaching any stack of observers with any options, and removing them again, changes nothing a solver can observe of a problem: values, constraint values, counters, best-so-far, target flag, bounds, initial solution, id, index and dimensions are bit-identical to those of the unobserved problem under the same calls, for deterministic and (same seeds) noisy problems. "
     "coco_problem_remove_observer undoes exactly the outermost coco_problem_add_observer (the problem's name, which shows the observers while they are attached, included), and a NULL or 'no_observer' observer is the identity.",
     ["histories", "configurations"], "all observer kinds, option sets and stacking orders of the alphabet; all operation sequences up to the bound, with attach/detach at every position",
     "tests observe with the default observer and look at the files, not at the differences seen by the solver",
     ["src/coco_observer.c", "src/logger_bbob.c", "src/logger_biobj.c", "src/logger_rw.c", "src/logger_toy.c", "src/coco_problem.c"],
     [("coco_problem_transformed_t", "wrapper with its own counters", "src/coco_problem.c")],
     [("coco_problem_add_observer / remove_observer", "src/coco_observer.c"), ("logger_*_evaluate", "src/logger_*.c")],
     ["coco_evaluate_function", "coco_problem_get_evaluations", "coco_problem_get_best_observed_fvalue1"])

prop("C08", "The bbob observer logs exactly the evaluations its triggers define",
     "For every sequence of evaluations on a problem observed by the 'bbob' observer and every option setting (number_target_triggers, log_target_precision, lin_target_precision, base_evaluation_triggers, log_discrete_as_int), the .dat file holds one record for the first evaluation and for each evaluation at which a new target is reached, and the .tdat file one for each trigger number, at the first evaluation at which function plus constraint evaluations have reached it, each file closed by a record of the final evaluation, in order and never twice. "
     "Each record carries the true function and constraint evaluation counts, the best (noise-free, feasible, shifted by the optimal value) value so far, the current value, the constraint digits and the point (for dimensions below 22), in the documented format.",
     ["histories", "configurations"], "all sequences of evaluations up to the bound over points with f-values straddling targets (improving, equal, worse, optimal, infeasible, NaN/inf), all explored option settings",
     "tests compare a few logs of fixed runs; which evaluations trigger depends on the whole history and on the options",
     ["src/logger_bbob.c", "src/observer_bbob.c", "src/coco_observer.c"],
     [("coco_observer_targets_t / coco_observer_evaluations_t", "next target and next evaluation number", "src/coco_observer.c"),
      ("logger_bbob_data_t", "best-so-far, last logged evaluation", "src/logger_bbob.c")],
     [("coco_observer_targets_trigger / coco_observer_evaluations_trigger", "src/coco_observer.c"), ("logger_bbob_evaluate, logger_bbob_free", "src/logger_bbob.c")],
     [".dat and .tdat files"])

prop("C09", "Restart and recommendation signals are logged and nothing else changes",
     "Under the bbob observer the first evaluation after a coco_observer_signal_restart (given after the first evaluation) is recorded once in the .rdat file, and a coco_recommend_solution whose noise-free value improves on all recommendations before and reaches a new target is recorded in the .mdat file, which is closed by the best recommendation, each with the evaluation counts at that time, in call order. "
     "Neither signal counts as an evaluation, changes best-so-far, counters or .dat/.tdat records, and without signals these two files hold nothing but their headers.",
     ["histories"], "all interleavings up to the bound of evaluate, evaluate-constraints, restart and recommend calls, including signals before the first and after the last evaluation",
     "tests do not exercise restarts and recommendations in combination with each other and with the first and last evaluation",
     ["src/logger_bbob.c", "src/coco_observer.c", "src/coco_problem.c"],
     [("logger_bbob_data_t.rdat_file/mdat_file", "files created on demand", "src/logger_bbob.c")],
     [("logger_bbob_signal_restart / logger_bbob_recommend", "src/logger_bbob.c")],
     [".rdat and .mdat files", "coco_problem_get_evaluations"])

prop("C10", "An experiment's data set indexes every run exactly once",
     "After any sequence of problems observed by one bbob observer, the .info file lists, per function/dimension block in the order of the runs, exactly one 'instance:evaluations|precision' entry for each evaluated problem with its true number of evaluations and final precision, and the block's data file names lead to .dat/.tdat files that contain these runs' records under one header each and nothing else. "
     "No file of an earlier block, run or experiment is overwritten or mixed with another function or dimension, and only one problem per observer is open at a time.",
     ["histories", "configurations"], "all sequences of problems (function, dimension, instance) up to the bound, including returns to an earlier function or dimension, repeated instances, problems that are never evaluated, and several observers at once",
     "tests run suites in their canonical order; other orders and repeats are allowed and go through the unique-filename and new-block logic",
     ["src/logger_bbob.c", "src/observer_bbob.c", "src/coco_observer.c", "src/coco_utilities.c"],
     [("observer_bbob_data_t", "last function/dimension/info file of the observer", "src/observer_bbob.c")],
     [("logger_bbob_initialize / logger_bbob_open_dataFile / openIndexFile", "src/logger_bbob.c"), ("coco_create_unique_filename", "src/coco_utilities.c")],
     [".info, .dat, .tdat files of the result folder"])

prop("C11", "A crash loses no logged record and corrupts no finished run",
     "If the process dies at any point of an observed experiment, every file of the result folder is a prefix of what the uninterrupted run would have written there, every run that was completed (its problem freed) before is complete and indexed, and every record triggered by an evaluation that had returned is in the .dat/.tdat files of the bbob observer, in the file of the rw observer and, with log_nondominated: all, in the .adat file of the bi-objective observer. "
     "A later experiment started with the same options does not touch these files.",
     ["crash_points", "histories"], "every prefix of every explored history (process killed between any two calls) and every output system call boundary of it, then a further experiment in the same place",
     "tests never kill the process; what is lost depends on stdio buffering at the very point of the crash",
     ["src/logger_bbob.c", "src/logger_biobj.c", "src/logger_rw.c", "src/coco_observer.c"],
     [("FILE buffers", "records not yet handed to the operating system", "src/logger_bbob.c")],
     [("fflush in logger_bbob_write_data; fclose at free", "src/logger_bbob.c")],
     ["files in the result folder after a kill"])

prop("C12", "Each observer gets a result folder of its own",
     "Whatever already exists and however many observers are created, one after another or by concurrently running processes in every interleaving of their file-system operations, each observer's result folder is exdata/<result_folder> or that name with the next free suffix -0001 ... -9999 (an error exit when all are taken; trailing slashes of the name are ignored), did not exist before the observer created it, and is never handed to two observers. "
     "Existing files and folders are left untouched, and nested folder names are created with all their parents.",
     ["schedules", "histories", "configurations"], "all interleavings of the file-system calls of two or three processes creating observers with the same folder name; all sequences of creations with pre-existing folders, files and gaps in the numbering",
     "a race between check and creation only shows under a particular schedule of two processes",
     ["src/coco_utilities.c", "src/coco_observer.c"],
     [("exdata/ directory", "shared namespace of all experiments", "src/coco_observer.c")],
     [("coco_create_unique_directory / coco_create_directory / coco_mkdir", "src/coco_utilities.c")],
     ["coco_observer_get_result_folder", "file system"])

prop("C13", "The bi-objective archive is the non-dominated set with its hypervolume",
     "After any sequence of coco_archive_add_solution calls, the archive holds exactly the solutions not dominated by any added one and its two extreme points (of equal objective vectors, one), returns 1 from the call exactly when the new solution entered, iterates the texts of all its solutions exactly once (the extremes first, then by increasing second objective) and then empty strings, starting over after an addition, and its hypervolume is the area dominated within the nadir/ideal box after normalisation. "
     "Counts, hypervolume and iteration may be requested at any time without affecting later results.",
     ["histories", "inputs"], "all sequences of additions over a grid of objective vectors (inside, on and beyond the reference box, ties, duplicates) interleaved with queries, up to the bound",
     "the set and the incremental hypervolume depend on insertion order; tests cover a few fixed sequences",
     ["src/coco_archive.c", "src/mo_avl_tree.c", "src/mo_utilities.c"],
     [("coco_archive_t.tree, .hypervolume, .is_up_to_date", "solutions and cached indicator", "src/coco_archive.c")],
     [("coco_archive_add_solution / coco_archive_update", "src/coco_archive.c")],
     ["coco_archive_add_solution", "coco_archive_get_hypervolume", "coco_archive_get_number_of_solutions", "coco_archive_get_next_solution_text"])

prop("C14", "The bi-objective observer logs exactly the indicator trajectory",
     "For every sequence of evaluations of a bi-objective problem under the bbob-biobj observer and every option setting, the indicator .dat/.tdat files record exactly the evaluations that reach a new target or trigger number with the hypervolume-based indicator value of the archive so far (distance penalty while nothing dominates the nadir), closed by the final evaluation, and the .info entry gives the true number of evaluations and final value. "
     "The archive (.adat) files contain, per log_nondominated and log_decision_variables, exactly the (all or finally) non-dominated solutions with their evaluation numbers, objectives and variables.",
     ["histories", "configurations"], "all sequences of evaluations up to the bound over points of all dominance relations, all explored settings of log_nondominated, log_decision_variables, compute_indicators, precision and trigger options",
     "tests check that files exist; the content depends on the dominance pattern of the whole history",
     ["src/logger_biobj.c", "src/observer_biobj.c", "src/mo_utilities.c", "src/mo_avl_tree.c"],
     [("archive_tree, buffer_tree, indicators[]", "logger state", "src/logger_biobj.c")],
     [("logger_biobj_evaluate / logger_biobj_tree_update / logger_biobj_finalize", "src/logger_biobj.c")],
     [".dat, .tdat, .adat, .info files"])

prop("C15", "Archive reconstruction reproduces the indicator data of the original run",
     "Feeding the solutions of a complete archive file through coco_logger_biobj_feed_solution (log_nondominated: read) produces the same .dat records and final indicator as the observed run that wrote the archive. "
     "The evaluation numbers may have gaps, and the .tdat records at skipped trigger evaluations carry the indicator value valid at that number.",
     ["histories"], "all observed runs up to the bound (dominated and non-dominated points in every order), each written and then replayed",
     "equality has to hold for every dominance pattern and every gap in the evaluation numbers",
     ["src/logger_biobj.c"],
     [("previous_evaluations", "last evaluation number fed", "src/logger_biobj.c")],
     [("coco_logger_biobj_feed_solution / logger_biobj_reconstruct", "src/logger_biobj.c")],
     ["coco_logger_biobj_feed_solution", ".dat/.tdat/.info files"])

prop("C16", "No sequence of API calls in a legal lifecycle corrupts memory or hangs",
     "Every legal sequence of creating, using and freeing suites, problems, observers and archives - in every order of freeing, with the observer freed before or after the problems it observes, with problems freed by the user or by the suite, for every suite and observer kind and any option string - runs without invalid memory access, use after free, double free, use of memory that was never written, undefined arithmetic or endless loop, and releases all the memory it allocated. "
     "An illegal request (unknown suite or observer, opening a second problem on a bbob or bbob-biobj observer while the first is open, evaluating under a bbob observer that was freed before the first evaluation, malformed options) ends in the documented error exit or NULL, not in memory corruption.",
     ["histories", "configurations", "inputs"], "all sequences of lifecycle operations up to the bound on two problems, one or two suites and observers; all suites; long and malformed option strings",
     "tests free everything in one canonical order and the sanitizers only see the paths that run",
     ["src/coco_suite.c", "src/coco_observer.c", "src/coco_problem.c", "src/logger_*.c", "src/observer_*.c"],
     [("suite->current_problem, observer->data, logger->observer", "cross references between objects of different lifetimes", "src/coco_suite.c, src/logger_*.c")],
     [("coco_suite_free / coco_problem_free / coco_observer_free", "src/coco_suite.c, src/coco_problem.c, src/coco_observer.c")],
     ["process exit status", "AddressSanitizer/UBSan report", "allocator balance"])

prop("C17", "A problem whose optimum was disclosed cannot be benchmarked",
     "coco_problem_get_best_parameter taints a problem for good, whether called on the bare problem or through any observer wrapper: coco_problem_is_tainted becomes true for it and every problem later wrapped around it, and evaluating it under the bbob observer ends in an error before anything is logged. "
     "Nothing else taints: without that call no sequence of operations makes a problem, or any other problem, tainted.",
     ["histories"], "all orders up to the bound of disclose, attach, detach, evaluate, recommend and query on two problems",
     "the taint must survive every wrapping order; tests do not combine them",
     ["src/coco_problem.c", "src/logger_bbob.c"],
     [("is_tainted", "flag of each problem layer", "src/coco_problem.c")],
     [("coco_problem_get_best_parameter", "src/coco_problem.c"), ("logger_bbob_evaluate", "src/logger_bbob.c")],
     ["coco_problem_is_tainted", "coco_evaluate_function"])

prop("C18", "Noisy problems are reproducible and judged by their noise-free value",
     "After coco_reset_seeds, the same sequence of evaluations of bbob-noisy problems returns the same values, independent of previous activity, and deterministic problems are unaffected by noise generation. "
     "The noise is that of the function's documented model applied to the noise-free value (Gaussian g*exp(beta*N), uniform g*U^beta*max(1,(1e9/g)^(alpha*U)), additive Cauchy noise, of the two strengths, each plus the optimal value, 1.01e-8 and 100 times the boundary penalty, with draws that follow the seeds, which restart at 30), and loggers judge progress by the noise-free value.",
     ["histories", "inputs"], "all interleavings up to the bound of evaluations of noisy and noise-free problems and seed resets; all 30 noisy functions, explored dimensions and instances",
     "a test sees a few noise draws; reproducibility concerns every interleaving",
     ["src/suite_bbob_noisy.c", "src/suite_bbob_noisy_utilities.c", "src/transform_obj_gaussian_noise.c", "src/transform_obj_uniform_noise.c", "src/transform_obj_cauchy_noise.c"],
     [("_RANDNSEED, _RANDSEED", "global noise seeds", "src/suite_bbob_noisy_utilities.c")],
     [("coco_reset_seeds, coco_sample_gaussian_noise, coco_sample_uniform_noise", "src/suite_bbob_noisy_utilities.c")],
     ["coco_evaluate_function", "coco_reset_seeds", ".dat/.tdat files"])

prop("C19", "Mixed-integer problems treat integer variables as integers",
     "In bbob-mixint and bbob-biobj-mixint, the first 4/5 of the variables are integers with bounds 0..1, 0..3, 0..7, 0..15 by fifths and the rest continuous in [-5,5] (bbob-mixint) or [-100,100] (bbob-biobj-mixint); function values depend on an integer variable only through its nearest admissible integer (out-of-bounds values count as the nearest bound), while continuous variables act unrounded. "
     "A value exactly between two admissible integers may count as either. The initial solution is admissible and the value is that of the bbob function (the large-scale variant from dimension 50 on) of the same number and instance at the mapped point, times the published scaling factor of the function, with the optimum on the integer grid; bi-objective values are those of its two single-objective problems.",
     ["inputs", "configurations"], "all functions and dimensions of both suites over explored instances; every integer variable over values around every integer and rounding boundary",
     "tests evaluate at integer points only",
     ["src/transform_vars_discretize.c", "src/suite_bbob_mixint.c", "src/suite_biobj_mixint.c"],
     [("number_of_integer_variables, bounds", "shape of the problem", "src/suite_bbob_mixint.c")],
     [("transform_vars_discretize_evaluate_function", "src/transform_vars_discretize.c")],
     ["coco_evaluate_function", "coco_problem_get_number_of_integer_variables", "coco_problem_get_smallest_values_of_interest"])

prop("C20", "Every problem offers a usable domain, start point and constraints",
     "For every problem of every suite, lower bounds are strictly below upper bounds, the initial solution is deterministic, inside the bounds (integer where required) and satisfies all constraints; a constrained problem of constraint class 1..6 in dimension n has a + a/2 constraints (integer division) with a = 1, 2, 6, 6+n/2, 6+n, 6+3n, exactly a of them active at the optimum, linear in the untransformed functions (sphere, linear slope, different powers), and constraints and objective are evaluated consistently (feasible means all constraint values <= 0). "
     "Values at points outside the region of interest (coordinates up to 1e50) are numbers, never NaN: +inf only where the function overflows (coordinates above 1e3) or outside the box of the boxed suite.",
     ["inputs", "configurations"], "all functions and dimensions of all suites over the explored instances",
     "tests look at a few problems; an infeasible start point in one instance of one function invalidates that problem",
     ["src/coco_problem.c", "src/suite_cons_bbob.c", "src/suite_cons_bbob_problems.c", "src/c_linear.c"],
     [("initial_solution, smallest/largest_values_of_interest", "what a solver starts from", "src/coco_internal.h")],
     [("coco_problem_get_initial_solution", "src/coco_problem.c"), ("c_linear constraints", "src/c_linear.c")],
     ["coco_problem_get_initial_solution", "coco_evaluate_constraint", "coco_problem_get_number_of_constraints"])

prop("C21", "Observer options take effect as documented, in any order and spelling",
     "For every observer option string made of documented 'key: value' pairs, in any order, with any spacing, with quoted or unquoted text, each option has its documented effect on the result folder, the .info metadata and the records, the same as if the other options were absent; absent options have their documented defaults, and a value that cannot be read leaves the default. (The bbob observer writes its records in a fixed number format; precision options act on the rw, bbob-biobj and toy observers.) "
     "No option string makes the observer misread memory or crash; unknown keys only cause a warning.",
     ["inputs", "configurations"], "all permutations and subsets of the option set over spelling variants up to the bound; over-long and malformed strings",
     "options are found by searching the string; interactions between keys only show for particular orders and contents",
     ["src/coco_utilities.c", "src/coco_string.c", "src/coco_observer.c", "src/observer_*.c"],
     [("options string", "user input", "src/coco_observer.c")],
     [("coco_options_read, coco_option_keys", "src/coco_utilities.c")],
     ["coco_observer", "coco_observer_get_result_folder", "log files"])

prop("C22", "Random generators are deterministic, independent and uniformly bounded",
     "Two generators created with the same seed produce identical sequences under the same calls whatever happens to other generators in between, different seeds produce different sequences, uniform numbers lie in [0,1), and uniform and normal draws are those of the published generator at every position (across every internal refill). "
     "Creation, use and destruction of problems, suites and observers neither influence nor are influenced by user generators.",
     ["histories", "schedules"], "all interleavings up to the bound of draws from two generators of equal or different seeds, including positions around the state refill",
     "tests draw from one generator in one order",
     ["src/coco_random.c"],
     [("coco_random_state_t", "lagged Fibonacci state", "src/coco_random.c")],
     [("coco_random_generate / coco_random_uniform / coco_random_normal", "src/coco_random.c")],
     ["coco_random_uniform", "coco_random_normal"])

prop("C23", "The Python interface shows the same problems, values and logs as the C library",
     "For every sequence of cocoex operations on Suite, Problem, Observer and BareProblem (iteration, indexing by position, id or triple, calls, constraint, recommend, observe_with, signal_restart, free and garbage collection in any order, counters and attributes), the Python objects return the values, counts, ids and bounds that the C library gives for the same calls, and produce the same log files. "
     "Wrong input (size, type, index out of range, unknown suite, a nonexistent problem, objects already freed) raises a Python exception - or has no effect where documented, such as observing with an unknown or freed observer - and leaves the objects usable; it never crashes the interpreter. Fatal errors of the C library itself (such as one bbob observer on two open problems) end the process as documented.",
     ["histories", "inputs"], "all sequences of operations up to the bound over two problems, an iterator and two observers, with valid and invalid arguments at every position; every problem of every suite in small dimensions",
     "the python tests exercise the happy path; use-after-free and stale pointers depend on the order of calls",
     ["build/python/src/cocoex/interface.pyx", "build/python/src/cocoex/bare_problem.pyx"],
     [("Problem.problem, Problem.initialized, Suite.initialized", "ownership of the C objects", "build/python/src/cocoex/interface.pyx")],
     [("Problem.free / Problem.__call__ / Suite.next_problem / Observer.observe", "build/python/src/cocoex/interface.pyx")],
     ["cocoex.Suite", "cocoex.Problem", "cocoex.Observer", "cocoex.BareProblem"])

prop("C24", "ExperimentRepeater stops a problem exactly when its criteria are met",
     "For every history of tracked trials, ExperimentRepeater.done(problem) is false until done() was called for the second time, and then true exactly when the problem's instance has as many trials as the most-tried instance of its function and dimension (at least one) and the function and dimension have min_successes successful trials or have used at least (number of their instances) * budget_multiplier * dimension evaluations in total; done() is true exactly when all known problems are done after at least one sweep, and trials, successes and evaluations equal the counts and sums over the history. "
     "Tracking one function and dimension never changes the status of another, and queries change nothing.",
     ["histories"], "all sequences of track/done/query calls up to the bound on problems of two functions, dimensions and instances with successful and failed trials of different lengths",
     "the doctest runs one experiment; the stopping rule depends on the history",
     ["build/python/src/cocoex/utilities.py"],
     [("_data_dict", "per-problem trial data", "build/python/src/cocoex/utilities.py")],
     [("ExperimentRepeater.track / done", "build/python/src/cocoex/utilities.py")],
     ["ExperimentRepeater.done", "ExperimentRepeater.successes", "ExperimentRepeater.evaluations"])

prop("C25", "Batches partition the problems and keep instances together",
     "For every number of batches n and every suite, the batches 0..n-1 selected by BatchScheduler partition the problems: when the same sequence of problems is presented to the n schedulers, each problem is in exactly one batch, consecutive problems that differ only in the instance are in the same batch, and sweeping again, also after an interrupted sweep (the numbering starts over when the first problem appears again), gives the same batches. "
     "Invalid batch numbers are rejected with an exception.",
     ["inputs", "configurations", "histories"], "all numbers of batches up to the bound, all batch numbers, all suites, all explored presentations",
     "a doctest shows one suite with few batches; a lost problem means a silently incomplete experiment",
     ["build/python/src/cocoex/utilities.py"],
     [("BatchScheduler state", "function/dimension counter", "build/python/src/cocoex/utilities.py")],
     [("BatchScheduler.is_in_batch", "build/python/src/cocoex/utilities.py")],
     ["BatchScheduler.is_in_batch"])

prop("C26", "Removing a directory deletes that tree and nothing else",
     "coco_remove_directory(path) deletes every file and directory of the tree at path, whatever its shape, and returns 0 exactly when nothing is left of it (a path that does not exist is nothing to do, and a path that is not itself a directory is left alone); it never deletes or changes anything outside the tree - in particular symbolic links are removed, not followed. "
     "A deletion that fails at any point is reported by a non-zero result, and no descriptor stays open.",
     ["inputs", "fault_sequences"], "all directory trees up to the bound of files, empty and nested directories, hidden names and symbolic links (to files and directories inside and outside); every single failing file-system call",
     "the unit test removes one flat tree",
     ["src/coco_utilities.c"],
     [("file system tree", "what is to be removed", "src/coco_utilities.c")],
     [("coco_remove_directory_no_msc", "src/coco_utilities.c")],
     ["file system after the call", "return value"])

prop("C27", "The rw observer logs every evaluation faithfully",
     "Under the 'rw' observer, the file of a problem receives one line per evaluation (with log_only_better on single-objective problems: per strict improvement, and the first) with the evaluation number, constraint-evaluation count, objective values and, per log_variables/log_constraints/low_dim_* options, the variables and constraint values at the requested precision. "
     "Repeated runs of a problem append below a new header and never alter earlier lines.",
     ["histories", "configurations"], "all evaluation sequences up to the bound and all combinations of the rw options, on single- and multi-objective, constrained and mixed-integer problems",
     "not covered by the tests at all",
     ["src/logger_rw.c", "src/observer_rw.c"],
     [("logger_rw_data_t", "counters and best value", "src/logger_rw.c")],
     [("logger_rw_evaluate", "src/logger_rw.c")],
     ["*_rw.txt files"])

prop("C28", "The toy observer records when each target is first hit",
     "Under the 'toy' observer, the first-hitting-times file gets, for every problem, a header naming it and then one line per evaluation that hits a target not hit before in this run: the evaluation number, the function value, the target and the variables, where targets are evenly spaced on the logarithmic scale (10^(k/n) down to the precision, zero, and -10^(k/n) below) as the options say. "
     "A value that is not finite or not a strict step along the targets logs nothing, every line belongs to exactly one problem, and nothing of a run alters what was written before.",
     ["histories", "configurations"], "all evaluation sequences up to the bound over values above, around, at and below zero and not finite; all settings of the options; several runs with one observer",
     "the tests never read the file",
     ["src/logger_toy.c", "src/observer_toy.c", "src/coco_observer.c"],
     [("coco_observer_log_targets_t", "last target hit", "src/coco_observer.c")],
     [("logger_toy_evaluate", "src/logger_toy.c"), ("coco_observer_log_targets_trigger", "src/coco_observer.c")],
     ["first_hitting_times.dat"])

prop("C29", "The Java interface shows what the C library does",
     "Every history of calls through the Java classes Suite, Problem and Observer and the CocoJNI functions (iteration, problem by index and by triple, evaluation of objectives and constraints, recommendation, attaching and removing observers, restart signals, all queries) yields the problems, values, counters, result folders and log files that the corresponding C calls give. "
     "A call with a decision vector of the wrong length, or a suite or observer that does not exist, raises a Java exception, never crashes the virtual machine, and changes nothing.",
     ["histories", "configurations"], "all sequences of calls up to the bound on every suite and observer, every query, valid and invalid arguments",
     "the Java interface has an example experiment but no tests of its answers",
     ["build/java/CocoJNI.c", "build/java/Suite.java", "build/java/Problem.java", "build/java/Observer.java", "build/java/Benchmark.java"],
     [("pointer", "C object behind a Java object", "build/java/Problem.java")],
     [("Java_CocoJNI_cocoEvaluateFunction", "build/java/CocoJNI.c"), ("Suite.getNextProblem", "build/java/Suite.java")],
     ["return values and exceptions", "result folder"])

prop("C30", "The Rust interface shows what the C library does",
     "Every history of calls through the Rust crate (Suite, Problem, Observer, RandomState: iteration, problem by index and by triple, evaluation of objectives and constraints, observers, restart signals, targets, ranges, all queries) yields the problems, values, counters and log files that the corresponding C calls give; every name of the crate's enumerations names what the C library knows. "
     "A vector of the wrong length panics before the C library is called, dropping values in any order frees each C object exactly once, and no call touches memory it does not own.",
     ["histories", "configurations"], "all sequences of calls and drops up to the bound on every suite and observer, every query, valid and invalid arguments",
     "the crate's tests evaluate a handful of points and are not among the stable tests",
     ["build/rust/src/lib.rs", "build/rust/src/suite.rs", "build/rust/src/problem.rs", "build/rust/src/observer.rs"],
     [("inner pointers", "C object behind a Rust value", "build/rust/src/problem.rs")],
     [("Problem::evaluate_function", "build/rust/src/problem.rs"), ("Suite::next_problem", "build/rust/src/suite.rs")],
     ["return values and panics", "result folder"])

prop("C31", "The MATLAB/Octave interface shows what the C library does",
     "Every history of calls through the MATLAB functions and the gateway cocoCall (iteration, problem by index, evaluation of objectives and constraints with row and column vectors, recommendation, attaching and removing observers, restart signals, all queries, log level) yields the problems, values, counters and log files that the corresponding C calls give, whatever the spelling of the function's name in upper and lower case. "
     "A vector of the wrong length, shape or class, a wrong number of arguments, or the largest f-values of interest of a single-objective problem raises a MATLAB error and changes nothing; no call writes outside the arrays it creates or modifies its arguments.",
     ["histories", "configurations"], "all sequences of calls up to the bound on every suite and observer, every query, valid and invalid arguments",
     "the MATLAB interface has an example experiment but no tests, and MATLAB is rarely available where the tests run",
     ["build/matlab/cocoCall.c", "build/matlab/cocoEvaluateFunction.m"],
     [("int64 references", "C object behind a MATLAB value", "build/matlab/cocoCall.c")],
     [("mexFunction", "build/matlab/cocoCall.c"), ("cocoEvaluateFunction", "build/matlab/cocoCall.c")],
     ["results and errors", "result folder"])

prop("C32", "Python helpers pass on options, arguments and settings unchanged",
     "ObserverOptions(d).as_string makes the C library set exactly the options of d, for every dictionary of options and values (words, quoted text with any punctuation, numbers, lists of numbers) in every order and however it was put together (update overwrites, update_gracefully keeps present keys). "
     "args_to_dict maps every list of name=value arguments to the literals (or else strings) given, for known names and unique abbreviations, splits a batch argument into its parts, and raises ValueError for unknown names, malformed arguments and contradicting values. "
     "write_setting followed by read_setting (and dict_to_eval) gives back exactly the entries that are literals and not ignored; an existing file is never overwritten; a missing file reads as None. SameFunction counts directly preceding calls with the same function and dimension, ascetime shows every duration in hours, minutes and seconds, about_equal compares up to the given relative precision, and MiniPrint and ShortInfo show each dimension and function when it changes (MiniPrint also one symbol for each run).",
     ["inputs", "histories"], "all dictionaries of up to two options (all values, orders, ways of construction), all argument lists up to length 2 with all sets of known names, all settings of up to two entries, all id sequences up to length 5, all durations up to 30 hours",
     "the doctests convert one or two values without punctuation, and nothing compares the resulting string with what the C library makes of it",
     ["build/python/src/cocoex/utilities.py"],
     [("ObserverOptions", "the options as a dict", "build/python/src/cocoex/utilities.py")],
     [("ObserverOptions.as_string", "build/python/src/cocoex/utilities.py"), ("args_to_dict / write_setting / read_setting", "build/python/src/cocoex/utilities.py")],
     ["return values and exceptions", "result folder of an observer created with the string", "setting files"])

prop("C33", "Budgeted runs in Python observe and return the right solutions",
     "ProblemNonAnytime: for every sequence of evaluations, deliveries and resets, every call returns the value of the problem, and the observed data are those of the C library observing exactly the evaluations beyond the number observed so far plus each delivered solution whose value is not the best observed one; delivering after fewer evaluations than already observed raises ValueError; evaluations, best_observed_fvalue1, final_target_hit and the attributes of the problem are those of the observed problem. "
     "solvers.random_search evaluates points within the bounds, at most budget objective and at most budget constraint evaluations (exactly budget when unconstrained), and returns a point with the smallest value among the feasible points it evaluated, None if there is none.",
     ["histories", "inputs"], "all sequences of up to 5 operations on problems of several suites; all outcomes (value, feasibility) of all points of random searches with up to 5 points, including several chunks",
     "no test uses ProblemNonAnytime or random_search on constrained problems; the switch between the two problems depends on the history of budgets",
     ["build/python/src/cocoex/utilities.py", "build/python/src/cocoex/solvers.py"],
     [("p_observed / p_unobserved / evaluations", "which of the two problems the next call uses", "build/python/src/cocoex/utilities.py")],
     [("ProblemNonAnytime.__call__ / delivered", "build/python/src/cocoex/utilities.py"), ("random_search", "build/python/src/cocoex/solvers.py")],
     ["return values and exceptions", "result folder"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
