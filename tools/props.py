#!/usr/bin/env python3
"""Source of properties.jsonl (kept as one place to edit the texts)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
PR = "printemps/"
HK = "PRINTEMPS_VERIF_HOOK observation points in the model update and incumbent holder"

prop("P01", "A solution reported as feasible satisfies the user's original model",
     "For every model and every option setting, when a solve reports its solution as feasible, the reported value of every variable lies within the bounds the user declared, every variable the user fixed has the value it was fixed to, and every constraint the user stated holds (up to the solver's numerical tolerance). No preprocessing step, neighbourhood, restart or dual phase may make the solver report a point that violates the original model, nor one better than the true optimum.",
     ["inputs", "configurations"], "all integer linear models (any bounds, senses, coefficients, fixed and initial values, named expressions) and all option settings",
     "The tests check single components on hand-made models and never run the solver (solver/ has no tests at all); feasibility of the final answer depends on the composition of presolve, elimination, selections, move evaluation and solution export.",
     [PR + "solver/solver.h", PR + "model/model.h", PR + "preprocess/problem_size_reducer.h", PR + "preprocess/dependent_variable_extractor.h", PR + "solution/incumbent_holder.h"],
     [("feasibility of a state", PR + "model/model.h: is_feasible, update"), ("incumbent selection", PR + "solution/incumbent_holder.h: try_update_incumbent"), ("export of the incumbent", PR + "solver/solver.h: solve/postprocess")],
     ["the result object returned by a solve"])
prop("P02", "Reported objective, values and violations describe the reported solution",
     "In every result of a solve, feasible or not, the objective value, each expression value, each constraint value, each constraint violation and the total violation equal what the original model gives when it is evaluated at the reported variable values. The feasibility flag is set exactly if no constraint of the model is violated there. After the solve the variables of the model hold the reported values.",
     ["inputs", "configurations"], "all models and option settings, both optimization senses, feasible and infeasible results",
     "Tests compare a few exported solutions of unpreprocessed toy models; after presolve, elimination of variables and thousands of incremental updates nothing checks the numbers.",
     [PR + "model/model.h", PR + "model_component/expression.h", PR + "model_component/constraint.h", PR + "solution/named_solution.h", PR + "solver/solver.h"],
     [("recomputation of dependent parts before export", PR + "model/model.h: update_dependent_variables_and_disabled_constraints"), ("conversion to the named solution", PR + "model/model.h: convert_to_named_solution/export_named_solution")],
     ["the result object returned by a solve"])
prop("P03", "Preprocessing keeps the feasible optimum and never admits a wrong point",
     "After the model has been prepared for the search under any options, the prepared problem still admits a feasible solution with the same best objective value as the original problem whenever the original has one, and every point the prepared problem accepts as feasible is feasible for the original with the same objective value. A model that has a feasible solution is never rejected as infeasible. Bounds that are tightened during the search never exclude a solution better than the incumbent.",
     ["inputs", "configurations"], "all bounded integer linear models and all combinations of the preprocessing options",
     "Each reduction has a few example tests; that no combination of reductions cuts off every optimum or loses a constraint is a statement about all models and orders of application.",
     [PR + "model/model.h", PR + "preprocess/problem_size_reducer.h", PR + "preprocess/dependent_variable_extractor.h", PR + "preprocess/initial_solution_corrector.h", PR + "preprocess/selection_extractor.h", PR + "preprocess/gf2_solver.h"],
     [("problem size reduction", PR + "preprocess/problem_size_reducer.h"), ("variable elimination", PR + "preprocess/dependent_variable_extractor.h, dependent_variable_eliminator.h"), ("selection extraction", PR + "preprocess/selection_extractor.h")],
     ["the set of points the prepared model accepts, enumerated through its own update"])
prop("P04", "Incremental evaluation always equals evaluation from scratch",
     "At every point of every search, the stored values of the objective, expressions and constraints, the list of violated constraints, the feasibility flag and the score attached to the current solution equal what a from-scratch evaluation of the current variable values gives. The score predicted for a move (objective, violation, penalties, feasibility) equals the score of the state reached by actually making that move, whichever of the evaluation shortcuts computed it.",
     ["inputs", "histories", "configurations"], "all models, all sequences of moves and all kinds of moves the solver can generate, all penalty coefficients",
     "Tests evaluate a handful of moves from a fixed state; drift appears after particular sequences of moves, kinds of rows or preprocessing results.",
     [PR + "model/model.h", PR + "model_component/expression.h", PR + "model_component/constraint.h", PR + "model_component/fixed_sensitivities.h", PR + "neighborhood/move.h"],
     [("full evaluation", PR + "model/model.h: evaluate"), ("fast evaluations", PR + "model/model.h: evaluate_single, evaluate_selection, evaluate_multi"), ("state update", PR + "model/model.h: update(move)")],
     ["every model update and every incumbent offer during real solves; direct calls on prepared models"], HK)
prop("P05", "The search visits only valid states through well-formed moves",
     "Every state the search visits keeps each independent variable inside its bounds, leaves fixed variables at their values and keeps exactly one chosen variable in each selection group, and the recorded choice is the one whose value is one. Every offered move really changes what it announces, stays inside the bounds and concerns only changeable variables; together the basic neighbourhoods offer every single-variable step, so that an improving step is not hidden from the search, and an enabled neighbourhood made for a kind of row (or given pair of variables) offers the moves of each such row whose variables may change. An integer step that is lengthened to pass an equal stretch stays inside the bounds and is no worse than the step it replaces.",
     ["inputs", "histories", "configurations"], "all models, histories of moves, neighbourhood settings and improvability screening settings",
     "Neighbourhood tests check generated moves on small fixed models right after setup, never along a search or in combination with fixing, bound tightening and screening.",
     [PR + "neighborhood/", PR + "solver/local_search/core/local_search_core.h", PR + "solver/tabu_search/core/tabu_search_core.h", PR + "model_component/selection.h", PR + "model_component/variable.h"],
     [("move generation", PR + "neighborhood/*_move_generator.h"), ("combination of moves", PR + "solver/local_search/core/local_search_core.h: run"), ("selection bookkeeping", PR + "model_component/variable.h: select")],
     ["every model update during real solves; the move list of prepared models"], HK)
prop("P06", "The best feasible solution ever found is the one returned",
     "During a solve the incumbent never becomes worse, and the stored incumbent solution always is the point its stored objective belongs to. When a solve ends, for whatever reason, it returns a feasible solution if any visited state was feasible, and its objective is at least as good as that of every feasible state visited (up to the solver's tolerance).",
     ["inputs", "histories", "configurations"], "all models, option settings and termination reasons",
     "No test runs the solver; the incumbent holder is tested with hand-made scores only.",
     [PR + "solution/incumbent_holder.h", PR + "solver/solver.h", PR + "solver/tabu_search/core/tabu_search_core.h", PR + "solver/local_search/core/local_search_core.h", PR + "solver/lagrange_dual/core/lagrange_dual_core.h"],
     [("incumbent update", PR + "solution/incumbent_holder.h: try_update_incumbent"), ("restarts and hand-over between phases", PR + "solver/tabu_search/controller/, " + PR + "solver/solver.h")],
     ["every incumbent offer during a solve, and the returned result"], HK)
prop("P07", "Dual bounds are valid and claimed optimality is real",
     "Every dual bound the solver adopts is a valid bound on the optimum (a lower bound when minimizing, an upper bound when maximizing, up to the tolerance of the method that computed it) and adopted bounds never get weaker. When a search ends because the solution is optimal, the returned solution has the optimal objective value.",
     ["inputs", "configurations"], "all models, both senses, with and without the linear programming and Lagrangian phases",
     "Neither the dual phases nor the termination decision are covered by tests.",
     [PR + "model/model.h", PR + "linear_programming/linear_programming.h", PR + "solver/pdlp/", PR + "solver/lagrange_dual/", PR + "solver/tabu_search/core/tabu_search_core.h", PR + "solution/incumbent_holder.h"],
     [("naive bound", PR + "model/model.h: compute_naive_dual_bound"), ("Lagrangian bound", PR + "solver/lagrange_dual/core/"), ("LP bound", PR + "solver/pdlp/controller/pdlp_controller.h"), ("optimality test", PR + "solver/tabu_search/core/tabu_search_core.h: satisfy_optimal_or_no_move_terminate_condition")],
     ["every bound handed to the incumbent holder; the termination status"], HK)
prop("P08", "The feasible solution archive is complete, correct and ordered",
     "When storing of feasible solutions is switched on, every archived solution is feasible for the user's model and carries its true objective value, no solution is stored twice, they are ordered from best to worst, and the number kept never exceeds the requested capacity. No feasible state the search moves to is missing, and the returned solution is among them, unless the capacity made room for solutions that are at least as good. When storing is switched off the archive stays empty.",
     ["inputs", "histories", "configurations"], "all models, searches and archive capacities",
     "The archive is tested with a few hand-made solutions; what a search puts into it is not tested.",
     [PR + "solution/solution_archive.h", PR + "solver/abstract_solver_controller.h", PR + "solver/tabu_search/core/tabu_search_core.h", PR + "solver/local_search/core/local_search_core.h", PR + "solver/solver.h"],
     [("collecting", PR + "solver/*/core/*_core.h: m_feasible_solutions"), ("ordering, uniqueness and capacity", PR + "solution/solution_archive.h: push")],
     ["the archive of a result against all feasible states observed during the solve"], HK)
prop("P09", "An MPS file is read as the problem it describes",
     "For every MPS file in fixed or free layout that uses only supported constructs, the model built from it has exactly the variables, integer bounds, rows, coefficients, right hand sides, ranges and objective (with its constant) that the file describes, irrespective of blank lines, comments, spacing, the order of entries and the presence of optional sections. A file that refers to unknown rows or columns or has malformed fields is rejected with an error instead of being read as a different problem.",
     ["inputs"], "all MPS files made of the supported sections (NAME, ROWS, COLUMNS with markers, RHS, RANGES, BOUNDS)",
     "Tests read four fixed files; the meaning of bounds, ranges, markers and their combinations over all files is not covered.",
     [PR + "mps/mps.h", PR + "model/model.h"],
     [("parser", PR + "mps/mps.h: read_mps"), ("conversion to a model", PR + "model/model.h: import_mps")],
     ["the model imported from a generated file against the generated problem"])
prop("P10", "A model written as an MPS file and read back is the same problem",
     "For every model with bounded integer variables, writing it to an MPS file produces a file that, read by an independent reader as well as by the library itself, has the same feasible points and gives each of them the same objective value as the original (maximization being written as minimization of the negated objective).",
     ["inputs"], "all models, both senses, constants, fixed variables, all variable layouts and numerical magnitudes",
     "Writing is tested by calling it once; equality of the written problem is a statement about all models.",
     [PR + "model/model.h", PR + "mps/mps.h"],
     [("writer", PR + "model/model.h: write_mps"), ("reader", PR + "mps/mps.h: read_mps")],
     ["the written file parsed by an independent reader and by the library"])
prop("P11", "Exported JSON and solution files carry exactly the exported data",
     "Every JSON file the library writes (problem instance, solution by name and by array, status, solution archive) is well-formed JSON whose contents equal the exported objects without loss of numerical precision; the plain solution file lists the feasibility line, objective and every variable, and reading it back restores the same values. The library's JSON reader returns the values of any supported document whatever its layout, and rejects a document that was cut off.",
     ["inputs"], "all models and solutions (names, shapes, magnitudes), all JSON documents of the supported value types",
     "Tests write to a file without reading it, and parse fixed documents.",
     [PR + "utility/json/json.h", PR + "solution/named_solution.h", PR + "solution/solution_archive.h", PR + "solver/status.h", PR + "model/model.h", PR + "multi_array/value_proxy.h", PR + "helper/auxiliary_file_reader.h"],
     [("JSON writing and parsing", PR + "utility/json/json.h"), ("export of solutions", PR + "solution/named_solution.h: write_json_by_name/write_json_by_array/write_solution"), ("export of instances", PR + "model/model.h: write_json_instance"), ("reading back", PR + "helper/auxiliary_file_reader.h")],
     ["the written files parsed by an independent JSON reader"])
prop("P12", "Option files set exactly the options they name",
     "Loading an option file sets each named option to the given value and every option that is not named to its documented default, whatever the order, subset or layout of the entries and whatever the option object contained before; enumerations are accepted by name and by number. Writing options to JSON and loading them again restores every option.",
     ["inputs", "configurations"], "all subsets of options and all values",
     "Tests load one fixed option file and compare each field once.",
     [PR + "option/", PR + "utility/json/json.h"],
     [("loading", PR + "option/*_option.h: setup"), ("defaults", PR + "option/*_option.h: initialize"), ("writing", PR + "option/*_option.h: to_json")],
     ["option objects after loading generated files"])
prop("P13", "Penalty weights and scores stay finite, non-negative and bounded",
     "At every step of every search the penalty coefficient of every constraint is a finite number between zero and the configured initial penalty coefficient, and every score derived from it is finite; so are the penalty coefficients reported in the status of the result. Tightening, relaxing, resetting or grouping of penalties never produces an undefined or negative weight that would blind the search.",
     ["inputs", "histories", "configurations"], "all models, searches and penalty options",
     "The adaptation of penalties only happens inside the solver loop, which has no tests.",
     [PR + "solver/tabu_search/controller/tabu_search_controller_state_manager.h", PR + "model_component/constraint.h", PR + "model/model.h"],
     [("tightening and relaxing", PR + "solver/tabu_search/controller/tabu_search_controller_state_manager.h: tighten_local_penalty_coefficient, relax_local_penalty_coefficient"), ("use in scores", PR + "model/model.h: evaluate*")],
     ["every incumbent offer during real solves and the returned status"], HK)
prop("P14", "A solve is reproducible: same input, same seed, same search",
     "Solving the same model again with the same options and seed visits the same sequence of states and returns the same result. The number of threads used for updating or evaluating moves, the order in which the threads run, the verbosity of the output and the place of objects in memory change nothing but the speed (as long as no time limit strikes and iteration order of address-keyed containers is held fixed).",
     ["inputs", "schedules", "configurations"], "all models, seeds, numbers of threads, thread schedules and verbosity levels",
     "No test runs the solver twice or with several threads; a dependence on scheduling shows only under particular interleavings.",
     [PR + "solver/tabu_search/core/tabu_search_core.h", PR + "solver/local_search/core/local_search_core.h", PR + "neighborhood/neighborhood.h", PR + "neighborhood/", PR + "model/model.h", PR + "solver/solver.h"],
     [("parallel move update", PR + "neighborhood/*_move_generator.h: omp parallel for"), ("parallel move evaluation", PR + "solver/tabu_search/core/tabu_search_core.h: omp parallel for"), ("random numbers", PR + "solver/tabu_search/core/tabu_search_core.h: m_mt19937")],
     ["the sequence of model updates of repeated solves"], HK)
prop("P15", "Parallel parts of a solve are free of data races",
     "Whatever the model, the options and the number of threads, no two threads of a solve access the same memory at the same time with one of them writing: the parallel loops that generate, screen and evaluate moves and compute sparse products only write to what belongs to their own iteration.",
     ["inputs", "schedules", "configurations"], "all models, option settings and thread schedules",
     "The tests call the parallel loops with models so small and deterministic that a race has no visible effect.",
     [PR + "neighborhood/", PR + "solver/tabu_search/core/tabu_search_core.h", PR + "solver/local_search/core/local_search_core.h", PR + "model/model.h", PR + "utility/sparse/"],
     [("parallel move update", PR + "neighborhood/*_move_generator.h: omp parallel for"), ("parallel move evaluation", PR + "solver/tabu_search/core/tabu_search_core.h, local_search_core.h: omp parallel for"), ("sparse products", PR + "utility/sparse/")],
     ["memory accesses of multi-threaded solves"], HK)
prop("P16", "No input makes the library read or write outside its memory",
     "Building, preprocessing and solving any model, reading any MPS, JSON, option or solution file (well-formed or damaged) and writing any file never accesses memory out of bounds or after its release, never uses uninitialised values to take decisions, never overflows signed arithmetic or converts out of range, and never ends the process abnormally: damaged input ends in an exception at worst.",
     ["inputs", "histories", "configurations"], "all models, option settings, searches and files, including damaged files",
     "Memory errors on the sampled inputs of the tests are silent in an ordinary build, and the solver and damaged files are not tested at all.",
     [PR],
     [("parsers", PR + "mps/mps.h, utility/json/json.h, helper/auxiliary_file_reader.h"), ("model and neighbourhood structures", PR + "model/, model_component/, neighborhood/"), ("solver phases", PR + "solver/")],
     ["sanitizer reports and abnormal ends"], None)
prop("P17", "Limits and targets end a search when they should, and nothing else does",
     "A solve never makes more outer loops, inner iterations or local search and Lagrangian iterations than its options allow, never runs a phase that is switched off, and stops promptly after the total time limit, after the time limit of a phase and after a feasible solution meets the target value (for either sense of optimization; a model without objective is done at its first feasible solution). Then it returns a solution that meets the target. Apart from that and from proven optimality it uses all its outer loops.",
     ["inputs", "histories", "configurations"], "all models, limits, targets and moments at which a limit strikes in any phase",
     "No test runs a search; whether a limit is noticed depends on the moment at which it strikes.",
     [PR + "solver/solver.h", PR + "solver/tabu_search/", PR + "solver/local_search/", PR + "solver/lagrange_dual/", PR + "solver/pdlp/", PR + "utility/time_keeper.h"],
     [("outer loop", PR + "solver/tabu_search/controller/tabu_search_controller.h: satisfy_*_terminate_condition"), ("inner loops", PR + "solver/*/core/*_core.h: satisfy_*_terminate_condition"), ("target value", PR + "solver/solver.h: setup_target_objective")],
     ["iteration counts of the result, moves and clock readings after the limit or target was passed"], HK)
prop("P18", "Expressions, constraints and objectives mean what the formula says",
     "However a formula is put together - sums, differences, scalar multiples, compound assignment, sum and dot over arrays, slices and expression arrays, constants on either side, both directions of comparison - the resulting expression, constraint or objective has exactly the coefficients, constant and sense of the formula, at every point, before and after a solve. Elements of arrays keep their names and positions through assignments: every way of naming an element reaches the same one, an array of one element stands for that element while a larger one is not silently taken for its first, and bounds, fixing, enabling and exported values concern exactly the elements named.",
     ["inputs", "histories"], "all formulas over scalars, arrays, slices and expression arrays, and all orders of assignment",
     "Tests check each operator once with fixed operands; combinations, aliasing and repeated assignment to array elements are not covered.",
     [PR + "model_component/expression.h", PR + "model_component/expression_proxy.h", PR + "model_component/variable_proxy.h", PR + "model_component/variable.h", PR + "model_component/expression_binary_operator.h", PR + "model_component/constraint_binary_operator.h", PR + "model/model.h"],
     [("operators", PR + "model_component/expression.h, expression_binary_operator.h, constraint_binary_operator.h"), ("sum and dot", PR + "model_component/variable_proxy.h, expression_proxy.h"), ("definition of constraints and objectives", PR + "model/model.h: create_constraint(s), minimize, maximize")],
     ["coefficients, constants, senses and values of the built objects"])
prop("P19", "The standalone solver solves the problem its command line describes",
     "For every MPS problem and combination of flags, the standalone solver solves exactly that problem with the given options, keeps variables fixed by the command line at their values, changes only the mutable ones, never returns something worse than a feasible start it was given (unless preprocessing replaced that start), and writes files (solution by name, solution file, status, archive, instance) that agree with each other and with the problem. Variable pairs it extracts exist and share the demanded number of constraints. Missing files, missing flag values and contradictory flags are rejected without writing a solution.",
     ["inputs", "configurations"], "all MPS problems, auxiliary files, option files and combinations of flags",
     "The standalone solver has no tests; it is compiled with its own evaluation path that the unit tests never build.",
     [PR + "standalone/mps_solver.h", PR + "helper/auxiliary_file_reader.h", PR + "model/model.h", PR + "preprocess/flippable_variable_pair_extractor.h"],
     [("command line", PR + "standalone/mps_solver.h: parse_command_line_arguments, setup"), ("fixing, mutable variables and initial values", PR + "model/model.h: fix_variables, unfix_variables, import_solution"), ("evaluation under _PRINTEMPS_MPS_SOLVER", PR + "model/model.h: evaluate*")],
     ["the files written by a run of the standalone solver"])
prop("P20", "Solves run to their end once; callbacks and user-defined moves act as given",
     "Every model that preprocessing does not show to be infeasible is solved to the end under every option setting: the solve returns a result, without an exception and without running forever. A registered callback is called exactly once per outer loop with the options of the run and an incumbent that agrees with everything found so far. Moves supplied by the user are evaluated and applied like built-in ones: the state after them, the objective, the violation and the incumbent are those of the changed point. A model that has been solved already is refused.",
     ["inputs", "configurations", "histories"], "all models, option settings, callbacks and user-defined moves",
     "No test runs a solve; user-defined moves and callbacks are only checked to be stored.",
     [PR + "solver/solver.h", PR + "model/model.h", PR + "neighborhood/user_defined_move_generator.h", PR + "neighborhood/neighborhood.h", PR + "solver/tabu_search/"],
     [("callback", PR + "model/model.h: set_callback, callback"), ("user-defined moves", PR + "neighborhood/user_defined_move_generator.h"), ("solve once", PR + "solver/solver.h: solve")],
     ["calls of the callback, moves made, exceptions and time-outs of solves"], HK)
prop("P21", "Reported search statistics are what happened",
     "The statistics returned with a result agree with the run: for every variable the number of times a move of the search changed it, for every constraint the number of visited states that violated it, the number of iterations and outer loops made, and whether a feasible solution was found. The trend log has one line per outer loop whose values are those of the incumbents at that moment. The memory the search keeps of its past (last update of a variable, counts of updates and of violations, and the intensities derived from them) matches the moves made.",
     ["inputs", "histories"], "all models, options and searches",
     "No test runs a search, and the counters are updated far from where the moves are made.",
     [PR + "solver/memory.h", PR + "solver/status.h", PR + "solver/solver.h", PR + "solver/tabu_search/", PR + "solver/local_search/"],
     [("counts", PR + "solver/memory.h: update"), ("status", PR + "solver/status.h, solver/solver.h: postprocess")],
     ["update_counts, violation_counts, numbers of iterations and loops and the found flag of the returned status"], HK)
prop("P22", "Every row and variable is counted once, under a class whose form it has",
     "After a model is prepared, each constraint and variable belongs to exactly one class of the reported problem structure, and the class is one whose form (which coefficients, bounds, sense and right-hand side) it really has; rows of a special form are recognised whenever their form is unambiguous. This holds for the original and the presolved problem, disabled rows and fixed variables being counted as such, and the printed problem summary reports these numbers.",
     ["inputs", "configurations"], "all models and preprocessing settings",
     "Tests classify a few hand-written rows, one per class; which of several classes a row falls into, near-miss forms and the state after preprocessing are not covered.",
     [PR + "model/model.h", PR + "model_component/constraint.h", PR + "model_component/variable.h", PR + "model_component/constraint_type_reference.h", PR + "model_component/variable_type_reference.h", PR + "solver/solver.h"],
     [("classification of rows", PR + "model_component/constraint.h: setup_constraint_type"), ("classification of variables", PR + "model_component/variable.h: setup_sense_binary_or_integer"), ("counting", PR + "model/model.h: categorize_constraints, categorize_variables")],
     ["reference lists of prepared models and the printed summary"], None)
prop("P23", "Support structures agree with their abstract models",
     "The containers and algorithms the solver relies on behave like their mathematical definitions for every sequence of operations: the bounded queue reports the size, extremes and average of what it still holds; the hash map and sparse set lookups find exactly what was inserted; union-find connects exactly the joined elements; the minimum spanning tree spans with minimal weight; matrices over GF(2) give the true rank and inverse; sparse matrices multiply and scale like dense ones; set operations, distances between sparse vectors, vector statistics, the two-way map and file-name handling follow their definitions; the bandit learner tries every action and keeps its sample counts and decayed means.",
     ["inputs", "histories"], "all sequences of operations and sizes, including empty and degenerate ones",
     "Tests run each structure on one or two fixed examples.",
     [PR + "utility/"],
     [("containers", PR + "utility/fixed_size_queue.h, utility/fixed_size_hash_map.h, utility/union_find.h, utility/graph/"), ("matrices", PR + "utility/binary_matrix.h, utility/sparse/"), ("learner", PR + "utility/ucb1/")],
     ["results of every operation"], None)
prop("P24", "The linear relaxation the solver builds and solves is that of the model",
     "The linear programme handed to the built-in solver describes the prepared model: a point of the box is feasible in one exactly if it is in the other and has the same objective value, scaling it changes nothing but units, and its transposed matrix matches. What the solver then claims is true: an optimal relaxation has the claimed value, a relaxation is called infeasible only if no point satisfies it, the value never exceeds the optimum of the model (when minimizing), and the iteration limit is kept.",
     ["inputs", "configurations"], "all models (senses, constants, bounds, fixed and unbounded variables, disabled rows) and solver settings",
     "The linear programming classes are not tested beyond construction; the relaxation is used silently and its errors only show as a wrong bound.",
     [PR + "linear_programming/linear_programming.h", PR + "model/model.h", PR + "solver/pdlp/", PR + "utility/sparse/"],
     [("relaxation", PR + "model/model.h: export_lp_instance"), ("scaling and transposition", PR + "linear_programming/linear_programming.h, utility/sparse/"), ("solver", PR + "solver/pdlp/core/")],
     ["the exported instance; the result of the solver"], None)
prop("P25", "Every step of the search follows the rules of the search",
     "In the tabu search the step taken is one of the offered moves. If a move leads to a state better than every state before (by the globally penalized objective) and overriding is enabled, the best such move is taken. Otherwise, as long as permitted moves are offered, the step changes no variable (some variable free, in mode All; every variable free, in mode Any and for selections) that was changed within the tenure, and it has the least score (objective, penalties and frequency penalty) among the permitted ones; a special move is taken only if it improves something and once per loop. The local search never leaves the feasible region, always improves the objective inside it and never increases the violation outside it. Iteration limits and the target value end the loops, and what a loop reports (lack of permitted moves, feasible solutions found, range of values) is what happened.",
     ["inputs", "histories", "configurations"], "all models, histories of moves, tenures, tabu modes, penalty weights and neighbourhood settings",
     "No test runs a search loop; a broken rule leaves every visited state valid and only makes the search cycle or miss solutions.",
     [PR + "solver/tabu_search/core/", PR + "solver/local_search/core/", PR + "solver/memory.h"],
     [("permissibility and scores", PR + "solver/tabu_search/core/tabu_search_core_move_evaluator.h"), ("choice", PR + "solver/tabu_search/core/tabu_search_core.h: select_move, run"), ("bookkeeping", PR + "solver/tabu_search/core/tabu_search_core_state_manager.h, solver/memory.h"), ("local search", PR + "solver/local_search/core/local_search_core.h: run")],
     ["every move applied to the model together with the offered moves; the loop results"], HK)
prop("P26", "Between loops the search adapts weights, start and parameters as documented",
     "After each loop of the tabu search: if the loop improved the incumbent, its best state is feasible or it found nothing, the penalty weights of the rows satisfied there are all lowered by one common factor within the configured range and no other weight changes; otherwise weights are raised only for rows violated there (never lowered, evenly when so configured, one common weight per group when grouping is on). Weights are reset to their initial value only after the configured stagnation and only while no feasible solution is known, and then all of them. The next loop starts from the incumbent, the best state of the loop or the last start: from the incumbent after an improvement in smart mode, from the best state in simple mode. Tenure, number of iterations, random modifications and screening mode change only where automatic adjustment is on, within their limits; special neighbourhoods are switched off by an improvement and on by a full loop without one, only those the options allow, and no more chain moves are kept than the capacity.",
     ["inputs", "histories", "configurations"], "all models, sequences of search loops, penalty and restart options",
     "No test runs a sequence of loops; wrong adaptation leaves every state valid and only lets the search stall.",
     [PR + "solver/tabu_search/controller/"],
     [("weights", PR + "solver/tabu_search/controller/tabu_search_controller_state_manager.h: tighten_local_penalty_coefficient, relax_local_penalty_coefficient, reset_local_penalty_coefficient"), ("start and parameters", PR + "solver/tabu_search/controller/tabu_search_controller_state_manager.h: update"), ("neighbourhoods", PR + "solver/tabu_search/controller/tabu_search_controller_state_manager.h: enable_special_neighborhood_moves, disable_special_neighborhood_moves")],
     ["weights, start solution, options and neighbourhoods before and after each update of the state manager"], None)
#MORE
with open(H + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
