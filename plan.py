"""What each property's check runs: driver, build flavour, number of cases."""
FLAVORS = {
    "o1": {"flags": ["-O1", "-fopenmp", "-pthread"]},
    "asan": {"flags": ["-O1", "-g1", "-fopenmp", "-pthread", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                       "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]},
    # the library as it is compiled into the standalone solver
    "mps": {"flags": ["-O1", "-fopenmp", "-pthread", "-D_PRINTEMPS_MPS_SOLVER"]},
    # memcheck: reads of uninitialised memory
    "vg": {"flags": ["-O1", "-g1", "-fopenmp", "-pthread"],
           "wrap": ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--leak-check=no", "--max-stackframe=8000000"]},
    # OpenMP regions run through harness/gomp_shim.cpp
    "shim": {"flags": ["-O1", "-fopenmp", "-pthread"], "extra": ["gomp_shim.cpp"]},
    "race": {"flags": ["-O1", "-g1", "-fopenmp", "-pthread", "-DVF_RACE", "-fsanitize=thread"], "extra": ["gomp_shim.cpp"],
             "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=97:report_signal_unsafe=0:history_size=4"}},
}
PLAN = {}
GEN = ("models are drawn at random from 20 kinds of rows (set packing/covering/partitioning, knapsacks, aggregations, precedences, "
       "equalities with a free integer, parity rows, singletons, ...) over binary/integer/fixed variables with random bounds, objective, "
       "expressions, layouts and option settings; ")


def prop(pid, technique, note, rule, jobs, must_see=(), assumptions=()):
    PLAN[pid] = dict(technique=technique, note=note, rule=rule, jobs=jobs, must_see=list(must_see), assumptions=list(assumptions))


def job(drv, quick, thorough, keys, flavor="o1", mode="all", **kw):
    return dict(drv=drv, quick=quick, thorough=thorough, keys=keys, flavor=flavor, mode=mode, **kw)


A_SMALL = "most models are small enough (box up to some thousand points) to be enumerated; larger ones are judged without the optimum"
A_TOL = "feasibility is judged with tolerance 1e-4, values with relative tolerance 1e-6"

prop("P01", "runtime monitor: result oracle over randomized solves",
     "oracle evaluates the user's model independently of the library at every returned solution; reach is the generated workload",
     GEN + "non-trivial: distinct (model, returned point) pairs",
     [job("drv_solve", 352000, 8000000, ["P01:"]), job("drv_solve", 64000, 1000000, ["P01:"], flavor="mps"),
      job("drv_trace", 64000, 1500000, ["P01:"], mode="use"), job("drv_trace", 48000, 1500000, ["P01:"], mode="dual")], ["claimed_feasible", "claimed_infeasible", "optimum_hit"], [A_SMALL, A_TOL])
prop("P02", "runtime monitor: result oracle over randomized solves",
     "oracle recomputes every reported number from the user's model; reach is the generated workload",
     GEN + "non-trivial: distinct (model, returned point) pairs",
     [job("drv_solve", 352000, 8000000, ["P02:"]), job("drv_solve", 64000, 1000000, ["P02:"], flavor="mps"),
      job("drv_trace", 64000, 1500000, ["P02:"], mode="use")], ["constraint_values_checked", "expression_values_checked", "model_values_checked"], [A_SMALL, A_TOL])
prop("P03", "runtime monitor: exhaustive comparison of prepared model with brute force",
     "per generated model the reduced problem is enumerated completely through the library and compared with brute force; models are sampled",
     GEN + "non-trivial: distinct models in which preprocessing fixed, eliminated or disabled something",
     [job("drv_presolve", 320000, 8000000, ["P03:"]), job("drv_presolve", 128000, 3000000, ["P03:"], mode="online")],
     ["fixed_by_presolve", "dependent_variables", "selections", "rows_disabled", "bounds_tightened_online", "better_solution_kept"], [A_TOL])
TR = GEN + "the library is built with its observation points and every visited state is checked; non-trivial: distinct states checked"
TRN = "online trace checker on hooked state of real solves; reach is the generated workload"
prop("P04", "runtime monitor: online trace checker on hooked search state", TRN, TR,
     [job("drv_trace", 160000, 4000000, ["P04:"]), job("drv_moves", 160000, 4000000, ["P04:"]),
      job("drv_trace", 48000, 1500000, ["P04:"], mode="dual"), job("drv_trace", 48000, 1500000, ["P04:"], mode="use"),
      job("drv_trace", 64000, 1000000, ["P04:"], flavor="mps"), job("drv_moves", 64000, 1000000, ["P04:"], flavor="mps")], ["move_updates_checked", "full_updates_checked", "incumbent_offers"], [A_TOL])
prop("P05", "runtime monitor: online trace checker on hooked search state", TRN, TR,
     [job("drv_trace", 160000, 4000000, ["P05:"]), job("drv_moves", 160000, 4000000, ["P05:"]),
      job("drv_trace", 64000, 1000000, ["P05:"], flavor="mps"), job("drv_moves", 64000, 1000000, ["P05:"], flavor="mps")], ["move_updates_checked", "selection_states_checked", "improving_steps_offered", "structured_moves_expected", "expected:TwoFlip", "steps_really_lengthened"], [A_TOL, "rows whose step along the equation is fractional are not asked for moves", "in infeasible states improving steps are demanded only with screening off, soft or aggressive (intensive screening hides some by design)"])
prop("P06", "runtime monitor: online trace checker on incumbent offers", TRN, TR,
     [job("drv_trace", 160000, 4000000, ["P06:"]), job("drv_trace", 48000, 1000000, ["P06:"], flavor="mps"),
      job("drv_trace", 64000, 1500000, ["P06:"], mode="dual"), job("drv_trace", 64000, 1500000, ["P06:"], mode="use"), job("drv_trace", 64000, 1500000, ["P06:"], mode="short")], ["feasible_offers", "feasible_incumbent_updates", "runs_with_feasible"], [A_TOL])
prop("P07", "runtime monitor: dual bounds and optimality claims against brute force", TRN, TR,
     [job("drv_trace", 96000, 3000000, ["P07:"]), job("drv_trace", 96000, 3000000, ["P07:"], mode="dual"),
      job("drv_trace", 64000, 1000000, ["P07:"], flavor="mps")],
     ["dual_bounds_improved", "optimality_claims"], [A_TOL, "bounds from PDLP and the subgradient method are only required to be valid up to 0.1% (they stop at tolerances)"])
prop("P08", "runtime monitor: archive against the feasible states observed during the solve", TRN, TR,
     [job("drv_trace", 240000, 4000000, ["P08:"]), job("drv_trace", 64000, 1500000, ["P08:"], mode="use"), job("drv_trace", 48000, 1500000, ["P08:"], mode="dual")], ["archived_solutions_checked", "archives_full", "visited_feasible_states_looked_up"], [A_TOL, "states of the random perturbation between two searches are not required to be archived"])
IO = "files are generated at random together with the problem/document they describe and compared through an independent reader; non-trivial: distinct files"
ION = "round trip through real files against an independent reader; reach is the generated workload"
prop("P09", "runtime monitor: generated MPS files against the problem they were generated from", ION, IO,
     [job("drv_io", 600000, 20000000, ["P09:"], mode="mps")], ["mps_files_read", "ranged_rows", "damaged_files_rejected"], ["integer problems; OBJSENSE, SOS and continuous columns are outside the supported constructs"])
prop("P10", "runtime monitor: written MPS files against the written model", ION, IO,
     [job("drv_io", 400000, 20000000, ["P10:"], mode="write")], ["mps_round_trips"], [A_TOL])
prop("P11", "runtime monitor: written files against the exported objects", ION, IO,
     [job("drv_io", 50000, 2000000, ["P11:"], mode="json"), job("drv_io", 200000, 8000000, ["P11:"], mode="doc"), job("drv_io", 150000, 4000000, ["P11:"], mode="bad")],
     ["solutions_exported", "documents_written", "documents_read", "cut_documents_rejected"], ["strings without quotation marks and backslashes, integers within int"])
prop("P12", "runtime monitor: loaded options against generated option files", ION, IO,
     [job("drv_io", 60000, 2000000, ["P12:"], mode="opt")], ["option_fields_checked"], [])
prop("P13", "runtime monitor: online checker of penalty coefficients and scores", TRN, TR,
     [job("drv_trace", 96000, 3000000, ["P13:"]), job("drv_trace", 480000, 6000000, ["P13:"], mode="short"), job("drv_trace", 48000, 1500000, ["P13:"], mode="dual"), job("drv_trace", 48000, 1500000, ["P13:"], mode="use")], ["adapted_penalties", "incumbent_offers"], [])
prop("P14", "runtime monitor: differential comparison of visited states under permuted thread orders",
     "the same solve is repeated at other addresses, with other team sizes and team orders and other verbosity; reach is the generated workload",
     GEN + "OpenMP regions are run by a stand-in runtime that runs the members of a team in random order; hash iteration is made independent of addresses; non-trivial: distinct state sequences",
     [job("drv_det", 150000, 4000000, ["P14:"], flavor="shim")], ["compared:repeat", "compared:threads", "compared:verbosity", "team_regions"],
     ["a fixed number of iterations (no time limit strikes)", "the order of containers keyed by addresses is not part of the claim: it is held fixed"])
prop("P15", "ThreadSanitizer on real solves with an OpenMP runtime it understands",
     "every parallel region of the real solver runs on real threads under ThreadSanitizer; reach is the generated workload and happens-before analysis",
     GEN + "non-trivial: distinct state sequences of multi-threaded solves",
     [job("drv_det", 24000, 600000, ["P15:"], flavor="race", mode="race", procs=4)], ["team_regions", "moves_made"],
     ["happens-before between region fork and join comes from the stand-in OpenMP runtime"])
prop("P16", "AddressSanitizer, UndefinedBehaviorSanitizer, standard library assertions and memcheck on all workloads",
     "the solve, search, preprocessing, file and algebra workloads run under the sanitizers; any report or abnormal end is a violation",
     "the workloads of the other checks, including damaged files, built with -fsanitize=address,undefined and _GLIBCXX_ASSERTIONS; non-trivial: distinct models, states and files",
     [job("drv_solve", 10000, 400000, ["P16:"], flavor="asan"), job("drv_trace", 6000, 300000, ["P16:"], flavor="asan"),
      job("drv_presolve", 8000, 300000, ["P16:"], flavor="asan"), job("drv_io", 40000, 1000000, ["P16:"], flavor="asan", mode="mps"),
      job("drv_io", 10000, 600000, ["P16:"], flavor="asan", mode="write"), job("drv_io", 3000, 200000, ["P16:"], flavor="asan", mode="json"),
      job("drv_io", 10000, 400000, ["P16:"], flavor="asan", mode="doc"), job("drv_io", 15000, 400000, ["P16:"], flavor="asan", mode="bad"),
      job("drv_io", 3000, 100000, ["P16:"], flavor="asan", mode="opt"), job("drv_algebra", 60000, 2000000, ["P16:"], flavor="asan"),
      job("drv_solve", 1200, 60000, ["P16:"], flavor="vg"), job("drv_trace", 1200, 60000, ["P16:"], flavor="vg"),
      job("drv_presolve", 600, 30000, ["P16:"], flavor="vg"), job("drv_moves", 600, 30000, ["P16:"], flavor="vg"),
      job("drv_limit", 160, 8000, ["P16:"], flavor="vg"), job("drv_algebra", 1600, 80000, ["P16:"], flavor="vg"),
      job("drv_io", 1600, 80000, ["P16:"], flavor="vg", mode="mps"), job("drv_io", 800, 40000, ["P16:"], flavor="vg", mode="write"),
      job("drv_io", 600, 30000, ["P16:"], flavor="vg", mode="json"), job("drv_io", 800, 30000, ["P16:"], flavor="vg", mode="bad"),
      job("drv_io", 400, 20000, ["P16:"], flavor="vg", mode="opt"),
      job("drv_class", 8000, 300000, ["P16:"], flavor="asan"), job("drv_util", 40000, 2000000, ["P16:"], flavor="asan"),
      job("drv_util", 1600, 80000, ["P16:"], flavor="vg"), job("drv_lp", 8000, 300000, ["P16:"], flavor="asan"),
      job("drv_lp", 400, 20000, ["P16:"], flavor="vg")],
     ["move_updates_checked", "mps_files_read", "cut_documents_rejected", "option_fields_checked"], ["reads of uninitialised memory are looked for by memcheck on a smaller sample of the workload"])
prop("P17", "runtime monitor: termination oracle on hooked search with a virtual clock",
     "the clock of the library is replaced by one that advances with every reading, so that every moment of expiry is reachable; moves and readings after a limit are counted",
     GEN + "with random iteration, time and target limits; non-trivial: distinct (model, iteration counts)",
     [job("drv_limit", 120000, 4000000, ["P17:", "HANG"])], ["deadline_passed", "phase_limits", "target_reached", "loop_limit_used", "optimal_end"],
     ["promptly: within a bounded number of further clock readings and moves; preprocessing itself is not interrupted"])
prop("P18", "runtime monitor: built formulas against an independent formula evaluator",
     "random formula programs are executed by the library and by a reference evaluator; reach is the generated workload",
     "random programs of operators, sums, dot products, slices, assignments and compound assignments over scalars, arrays and expression arrays; non-trivial: distinct programs",
     [job("drv_algebra", 2000000, 60000000, ["P18:"])], ["assigned", "compound", "constraints_checked", "objectives_checked", "expressions_checked", "used_after_solve", "arrays_checked", "array_elements_reached", "arrays_exported"], [])
prop("P19", "runtime monitor: files written by the standalone solver against the described problem",
     "random command lines, problems and auxiliary files are run through the standalone solver in a scratch directory; reach is the generated workload",
     GEN + "written as MPS files with random auxiliary files and flags; non-trivial: distinct (problem, command line, returned point)",
     [job("drv_cli", 100000, 3000000, ["P19:"])], ["claimed_feasible", "fixed_by_command_line", "feasible_starts", "misuse_tried", "pairs_checked", "archived_checked", "status_files_checked"],
     ["initial values do not contradict fixed values", "with -m, unlisted variables admit the value zero"])
prop("P20", "runtime monitor: callbacks, user-defined moves and ends of solves observed on hooked search", TRN,
     TR + "; a random callback, random user-defined moves and a second solve of the same model are part of the workload",
     [job("drv_trace", 160000, 4000000, ["P20:", "P01:", "P04:", "P05:", "P06:", "X:throw", "HANG"], mode="use"), job("drv_solve", 96000, 3000000, ["X:throw", "HANG"])],
     ["callbacks", "user_moves_offered", "user_moves_made", "feasible_offers"], [A_TOL, "user-defined moves stay within the bounds of the variables they name"])
prop("P21", "runtime monitor: reported statistics against the observed moves", TRN, TR,
     [job("drv_trace", 96000, 3000000, ["P21:"]), job("drv_trace", 96000, 3000000, ["P21:"], mode="use"),
      job("drv_moves", 64000, 2000000, ["P21:"])],
     ["update_counts_checked", "violation_counts_checked", "iteration_counts_checked", "trend_lines_checked", "memory_updates_checked"],
     ["violation counts are compared for the rows of the user's model (rows added by preprocessing may share a name)", "a loop that breaks off does not count its last move"])
prop("P22", "runtime monitor: reported classes of prepared models against the forms of their rows",
     "every row and variable of a model is classified by reference code before and after preprocessing and compared with the reference lists and the printed summary; reach is the generated workload",
     GEN + "non-trivial: distinct models",
     [job("drv_class", 480000, 10000000, ["P22:"])], ["class_demanded", "variables_classified", "summary_lines_checked"],
     ["a row that fits several classes may be counted under any class whose form it has"])
prop("P23", "runtime monitor: support structures against reference models under random operation sequences",
     "random operation sequences run on the library's containers and algorithms and on plain reference implementations; reach is the generated workload",
     "random operation sequences, sizes, matrices, graphs and key sets including empty and degenerate ones; non-trivial: distinct sequences",
     [job("drv_util", 2000000, 60000000, ["P23:"])],
     ["queue_steps", "hash_lookups", "union_find_pairs", "spanning_trees", "binary_inverses", "sparse_products", "scalings", "map_lookups", "distances", "learner_steps"], [])

prop("P24", "runtime monitor: the exported linear relaxation and its solver against enumeration",
     "the relaxation the library exports is compared with the prepared model at every integer point of its box, and what its solver claims with the vertices of the relaxation; reach is the generated workload",
     GEN + "non-trivial: distinct prepared models with at least one free variable and one row",
     [job("drv_lp", 200000, 6000000, ["P24:"])],
     ["relaxation_points_compared", "scalings_checked", "relaxations_solved", "optimal_relaxations", "infeasible_relaxations", "relaxations_by_vertices", "relaxation_optima_compared"],
     ["small relaxations (vertices are enumerated); the value claimed is compared with the tolerance the solver is asked for", "the solution vectors left in the solver's state are not judged (the library uses the value only)"])
prop("P25", "runtime monitor: every step of the searches against the rules of the search",
     "the state, tabu list, counts, best state and scores of all offered moves are kept independently and every step taken is judged with them; reach is the generated workload",
     TR.replace("every visited state", "every step taken"),
     [job("drv_tabu", 240000, 6000000, ["P25:"])],
     ["steps_among_permitted_moves", "steps_without_permitted_moves", "steps_to_a_new_best", "tabu_overridden_by_a_new_best", "special_steps", "local_steps_in_feasible_states", "local_steps_in_infeasible_states", "tabu_loops_checked"],
     ["the tenure is held constant and unrandomized, so that the tabu list is determined by the moves", "scores closer than 1e-6 (relative) count as equal", "the Lagrangian part of the score is off"])
prop("P26", "runtime monitor: adaptation between search loops against its documented rules",
     "the real state manager runs between loops of the real tabu search; weights, start, parameters and neighbourhoods before and after are compared, violations being recomputed from the variable values of the best state; reach is the generated workload",
     TR.replace("every visited state", "every loop"),
     [job("drv_adapt", 160000, 5000000, ["P26:"])],
     ["relaxations_checked", "tightenings_checked", "resets_checked", "weights_raised", "weights_lowered", "starts_checked", "tenure_changes", "iteration_limit_changes", "modifications_planned", "screening_modes_checked", "neighbourhoods_switched_on", "neighbourhoods_switched_off", "chain_moves_kept"],
     ["row values between 1e-7 and 1e-4 are not judged", "the size of a raise is judged only as even or not"])
