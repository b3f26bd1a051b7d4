DF = "MIR dataflow: gated-SSA values over the inlined call graph, "

prop("C01", "Every objective value belongs to the point it is reported with",
     "Wherever a point and an objective value are used together - the reference set handed from Stage 1 to Stage 2, the candidates tested by the filters, "
     "the local solutions kept and returned, the best values shown to an observer - the value is the objective of exactly that point. Shuffling, batching, "
     "sorting, partitioning and parallel evaluation never mix values of different points.",
     ["inputs", "schedules", "configurations"], "every problem, seed, batch size, thread count and feature set",
     "Tests check objectives of returned minima on a few easy problems; a mispaired candidate only changes which searches run.",
     [O, S, R], [("shuffle/batch of (point, objective) pairs", "OQNLP::run"), ("ScatterSearch::run", S), ("LocalSolution construction", R)],
     DF + "pairing obligations at every use", "Argmin's IterState is trusted to pair its best parameter with its best cost.")
prop("C02", "Stage 2 only starts local searches that pass both filters",
     "In Stage 2 a local search is started from a candidate point only if that candidate's own objective passes the merit threshold in force and the candidate "
     "passes the distance filter against the solutions found so far. No path starts a Stage-2 search from a point for which either test was skipped, was made for "
     "another point, or was inverted.",
     ["inputs", "schedules", "configurations"], "every candidate of every batch, sequential or parallel",
     "The filters' unit tests call them directly; that every solver call sits behind them depends on the control flow of the whole driver.",
     [O, F], [("gate before LocalSolver::solve", "OQNLP::run"), ("MeritFilter::check, DistanceFilter::check", F)],
     DF + "guard dominance of every Stage-2 solver call", "")
prop("C03", "Rejected candidates are counted and the merit threshold relaxed as documented",
     "In Stage 2 each candidate that fails a filter adds one to the count of unsuccessful iterations; when the count reaches the wait cycle the merit threshold becomes "
     "threshold + threshold_factor*(1+|threshold|) and the count restarts at zero. A candidate that passes both filters sets the threshold to its objective, an accepted first or better local solution to that solution's objective, and nothing else changes the "
     "threshold or the count.",
     ["inputs", "histories", "configurations"], "every history of accepted and rejected candidates",
     "Tests reach the relaxation on one or two histories only and never compare sequential with parallel bookkeeping.",
     [O, F], [("unchanged_cycles, adjust_threshold", O), ("MeritFilter::update_threshold", F)],
     DF + "case-by-case comparison of the state updates of one iteration", "")
prop("C04", "The solution set keeps exactly the best solutions found",
     "Every local solution a search returns during run() is offered to the solution set exactly once (unless the target was reached first), and run() returns that set. After a local solution is offered: an empty set becomes {it}; a solution better than the set's first member by more than the tolerance max(abs_tol, rel_tol*max(|objectives|)) replaces the whole set; one whose objective is "
     "within that tolerance is added unless a duplicate (by the documented distance test) is already there; anything worse, or duplicate, leaves the set unchanged. Every offered solution enters the distance filter. No other operation changes the set during a run.",
     ["inputs", "histories"], "every order and value of local solutions, including NaN",
     "Tests cover a handful of value pairs; the set's invariant must hold for every history.",
     [O], [("process_local_solution", O)],
     DF + "equivalence of the final set with the specified function, per boolean case", "")
prop("C05", "With out-of-bounds exclusion no returned solution violates the bounds",
     "When exclusion of out-of-bounds solutions is enabled, a local solution with any component outside the problem's bounds is never added to the solution set and never counts as reaching the target. "
     "When it is disabled, the bounds do not influence which local solutions are kept.",
     ["inputs", "configurations"], "every local solution, component and bounds",
     "Tests use two-dimensional examples and a solver that rarely leaves the box.",
     [O], [("is_within_bounds", O), ("process_local_solution", O)],
     DF + "guard of every insertion by the complete component-wise test", "")
prop("C06", "The run stops as soon as the target objective is reached",
     "The target counts as reached exactly when a target is set and the best kept solution's objective is at or below it. After each processed local solution the test is made "
     "before any further local search is started, and once it holds no further search starts and the solutions are returned.",
     ["inputs", "schedules", "configurations"], "every position in Stage 1, batch and iteration at which the target is reached",
     "Tests set easy targets reached in Stage 1 or in the first batch.",
     [O], [("target_objective_reached", O), ("break/return after it in run()", O)],
     DF + "path reachability from each processed solution to the next search", "In the parallel mode searches already started in the same batch finish.")
prop("C07", "No Stage-2 local search starts after the time limit",
     "When a maximum time is set, every Stage-2 local search is preceded by a comparison of the time elapsed since the start of Stage 2 with the limit, made since the last search (sequential) or batch (parallel), and does not start when the "
     "limit is exceeded; the solutions found so far are still returned: expiry is not reported as an error.",
     ["inputs", "schedules", "configurations"], "every moment at which the limit expires",
     "Tests use sleeps and one configuration; the moment of expiry is a schedule.",
     [O], [("max_time check", "OQNLP::run")], DF + "dominance of searches by the elapsed-time test", "Clock accuracy is outside the analysis.")
prop("C08", "Stage 2 examines each reference point in its budget once and in order",
     "Stage 2 examines the reference points at positions start..iterations of the (possibly shuffled) reference set, each exactly once and in order, where start is 0 for a fresh run; it leaves early only "
     "at the time limit, at the target or with an error.",
     ["inputs", "configurations"], "every iteration count, batch size, reference set and resume point",
     "Tests see only the final solutions; skipped or repeated candidates are invisible there.",
     [O], [("batch loop", "OQNLP::run")], DF + "loop induction and exit conditions", "")
prop("C09", "A run is a function of problem, parameters and seed",
     "With the same problem, parameters and seed, nothing the run does, saves or returns, errors included, depends on entropy, wall-clock time (other than the time limit and reported durations), hash iteration order, the environment, addresses or thread scheduling: every random generator is seeded "
     "from the configured seed or from what such a generator has drawn, parallel work shares nothing that matters, and every parallel reduction is order independent. The number of threads decides only the size of a batch when that is not set.",
     ["inputs", "schedules", "configurations"], "every thread schedule and process",
     "A test compares two runs in one process; scheduling and per-process entropy are not varied.",
     [O, S], [("StdRng::seed_from_u64", S), ("rayon collect", S)],
     "effect analysis over the call graph (entropy, clocks, hash order, shared state in code run in parallel), provenance of every generator seed through the call graph, non-interference of clock and thread count on the inlined driver", "User callbacks are assumed deterministic; the back ends (argmin, cobyla) are trusted.")
prop("C10", "Parallel and sequential execution take the same decisions",
     "For the same inputs the result does not depend on whether parallelism is compiled in or enabled at run time: Stage 1 evaluates, filters, orders and combines the same points in the same order.",
     ["schedules", "configurations"], "every thread count and feature set", "Tests compare two final results on one problem.",
     [S, O], [("cfg(feature = \"rayon\") twins", S)], "",
     "Equality of two separately written computations is program equivalence: a static comparison of the twins has to refuse equal but differently written ones. "
     "C09 decides that the parallel run is independent of the schedule, and the other Stage-1 rules hold on both branches and in the configurations with and without rayon.")
prop("C11", "Reference points lie within the bounds",
     "Every point that Stage 1 generates itself - seed points, stratified samples, trial combinations - lies within the problem's variable bounds component by component, and so does every start point handed to a local search, unless the user supplied it out of bounds, which is rejected.",
     ["inputs", "configurations"], "every bounds array, seed and generation",
     "Tests sample a few seeds.", [S], [("apply_bounds", S), ("generate_stratified_samples", S)],
     DF + "every stored component is an affine mix of its own bounds, a draw from them, or clamped to them", "")
prop("C12", "Constrained problems only keep feasible reference points",
     "When the problem has constraints, a point enters the reference set only if every constraint function is non-negative there (NaN counts as violated); an infeasible point is replaced or dropped.",
     ["inputs", "configurations"], "every constraint list and point",
     "Tests use one or two constraints.", [S], [("is_feasible", S)],
     DF + "guard of every insertion by the feasibility of the inserted point", "")
prop("C13", "Failed evaluations are never taken for results",
     "A failed evaluation of an initial reference point, a failed Stage-2 evaluation, a failed local search and a failed Stage 1 end the run with an error and nothing is searched after it; a Stage-1 trial point whose evaluation "
     "fails is skipped; a failure inside a local search is passed to the back end as an error (argmin) or as +infinity (COBYLA). A failure is never unwrapped or replaced by a finite value. A successful evaluation is passed on unchanged.",
     ["inputs", "fault_sequences"], "every evaluation at which the problem returns an error",
     "Tests fail the first evaluation only.", [S, O, R], [("? on objective()", S), ("ProblemCost", R)],
     DF + "use of every evaluation's error side", "")
prop("C14", "A checkpoint captures and restores the whole search state",
     "Saving and restoring a checkpoint loses nothing the continuation depends on: parameters, iteration, merit threshold, solution set, reference set, wait counter, distance-filter solutions, batch size, seed, target, tolerances and exclusion flag are captured from the live state, serialised, and restored to the same place, and everything derived from them is rebuilt.",
     ["histories", "crash_points", "configurations"], "every state at which a checkpoint is taken",
     "Tests compare a few fields after one save.", [O, K], [("create_checkpoint", O), ("restore_from_checkpoint", O)],
     DF + "field-by-field inverse of capture and restore; derive inspection", "bincode's round trip is trusted.")
prop("C15", "A resumed run continues at the first unprocessed iteration",
     "Whatever checkpoint a run is resumed from - automatically or by an explicit call - Stage 2 continues with the first reference point that was not examined before that checkpoint, with the wait counter and order of that moment; without a checkpoint it starts at the first.",
     ["crash_points", "histories"], "every crash point and save frequency",
     "Tests resume from one hand-made checkpoint.", [O], [("resume position in run()", O), ("maybe_save_checkpoint", O)],
     DF + "value of the loop start and of the saved iteration per case", "")
prop("C16", "A crash never destroys the last checkpoint",
     "Saving a checkpoint writes the complete data to another file, flushes it to disk and only then replaces the checkpoint by rename; a crash or write error at any point leaves the previous checkpoint readable, and older files are only removed after the new one is in place.",
     ["crash_points", "fault_sequences"], "every crash point and I/O error inside a save",
     "Tests never interrupt a save.", [K], [("CheckpointManager::save_checkpoint", K)],
     "typestate over the file-system calls on every path of a save", "rename(2) atomicity is trusted.")
prop("C17", "Checkpoint files are found, named and cleaned up consistently",
     "The file a checkpoint is saved to is one the lookup finds; with history kept, the lookup returns the highest iteration and the clean-up removes only the oldest files of the same name beyond the configured number, never the newest or foreign files.",
     ["histories", "configurations"], "every directory content and iteration",
     "Tests create a few files.", [K], [("find_latest_checkpoint, cleanup_old_checkpoints", K)],
     DF + "comparison of the name grammar on the writing and reading side", "")
prop("C18", "Checkpoint failures are reported, never swallowed",
     "Every I/O, serialisation or lookup error while saving, loading or cleaning up checkpoints (save, load, resume, run) is returned to the caller as an error and aborts the operation; none of them reports success after a failed step, and a damaged file is an error, not an empty state.",
     ["fault_sequences", "inputs"], "every failing call", "Tests corrupt one file.", [K, O], [("CheckpointError", K)],
     DF + "error side of every fallible call", "")
prop("C19", "Every local-solver setting reaches the solver it configures",
     "Each field of a local-solver configuration - including line-search parameters, tolerances, iteration limits, simplex and bounds - is passed to exactly the back-end setting it names, for every solver and line-search method, and the search starts at the given point; copying a configuration keeps every field.",
     ["inputs", "configurations"], "every configuration value, solver and line search",
     "Tests construct configurations but cannot see which setting the back end received.",
     [R, L], [("LocalSolver::solve_*", R)], DF + "argument provenance of every back-end setter on every arm", "")
prop("C20", "Builders carry every value through to the built configuration",
     "Each builder setter changes exactly the setting it names to exactly the given value, building copies every setting to the field of the same name, and unset settings have the documented defaults, which agree between the builder, Default and the documentation.",
     ["inputs", "programs"], "every sequence of setter calls", "Tests set a few fields of a few builders.",
     [L, T, K], [("*Builder", L)], DF + "per-field value of every setter and build()", "")
prop("C21", "The configured solver runs and its failures are reported as errors",
     "The solver type alone decides which back end runs; a configuration that does not belong to it, an invalid setting, a failed run and a missing result are each returned as the documented error and never as a solution.",
     ["inputs", "configurations", "fault_sequences"], "every solver, configuration and failure",
     "Tests provoke a few of the error arms.", [R], [("LocalSolver::solve", R)],
     DF + "path-sensitive reachability of back ends, error variant of every arm", "")
prop("C22", "Observers and output never change the search",
     "Attaching an observer, a callback or verbose output changes nothing about which points are examined, which searches run or which solutions are returned: observers receive data and nothing flows back into the algorithm.",
     ["configurations", "programs"], "every observer configuration", "Tests compare one run.",
     [O, S, B], [("observer.as_ref()", O)], "information-flow (non-interference) over the inlined driver", "")
prop("C23", "Observer counters count what they name, at the configured frequency",
     "Each observer counter is incremented exactly once for each event it names and at no other event, only for the stages observed; callbacks fire for the observed stages at every multiple of the configured frequency.",
     ["histories", "configurations"], "every history of events", "Tests drive observers by hand.",
     [B, S1, S2, O, S], [("Stage1State, Stage2State", B)], DF + "event/increment correspondence", "")
prop("C24", "Observed best values and timers are those of the run",
     "The best objective and point shown by the stage states are a matching pair and never get worse; timers run from the start to the end of their stage and stay fixed afterwards; totals are sums of their parts.",
     ["histories"], "every history of updates", "Tests check single updates.",
     [B, S1, S2], [("update_best, end", S1)], DF + "state update case analysis", "")
prop("C25", "Invalid parameters are rejected before anything runs",
     "Constructing the optimiser fails with the error that names the setting exactly if the population is below 3, the iterations exceed the population, the threshold factor is not a number above 0 or the distance factor is not a number of at least 0; the distance filter fails for the same distance factors; "
     "scatter search fails exactly if some variable's bounds are not numbers in increasing order a finite distance apart, naming that variable; every other value is accepted.",
     ["inputs"], "every parameter value including NaN and infinities", "Tests try single bad values.",
     [O, S, F, T], [("OQNLP::new, MeritFilter/DistanceFilter::new", O)], DF + "exact accept/reject condition of every constructor, decided over the order types of the settings", "")
prop("C26", "No configuration makes the optimiser panic",
     "For every accepted configuration, problem shape and callback result the optimiser returns a value or an error: no reachable index, division, unwrap, arithmetic or assertion in the library panics because of user-controlled values.",
     ["inputs", "configurations"], "every configuration and problem", "Tests cannot enumerate the values.",
     [O, S, B, S1, S2, K, R], [("all panicking operations", "src")], "",
     "Discharging every panic edge needs bounds on run-time shapes and values (array lengths of user callbacks, ndarray and argmin internals) that no sound static argument in reach gives; "
     "C13, C18, C25, C28 and C29 decide the rejections and error paths that keep bad values out.")
prop("C27", "Python settings, results and accessors are the Rust ones they name",
     "Every keyword of the Python constructors, builder classes and optimize() reaches the Rust setting of that name, and one that is omitted has its documented default; every list of start points is handed on one row per point, and rows of different lengths are refused; the solutions come back in the optimizer's order, each with its own point and objective, and every attribute or method of the Python classes (observer states, observer settings, solutions, solution sets and their iteration) reads or changes what the Rust accessor of the same name does.",
     ["inputs", "configurations"], "every keyword, value and accessor", "The Rust tests do not load the extension; the Python tests try single values.",
     [PY, PB, PO], [("optimize, PyOQNLPParams, PySolutionSet", PY), ("builders", PB), ("PyObserver", PO)],
     DF + "argument-to-field provenance over the MIR of the extension crate", "")
prop("C28", "Python callback failures surface as errors",
     "A Python objective, gradient, Hessian, bounds or constraint callback is called with the point, and what the optimizer uses is what that callback returned; an exception it raises, or a result of the wrong type or (for the Hessian and the bounds) with rows of the wrong length, becomes an error or stops the run and is never a value, a missing gradient or Hessian is reported as missing, and each constraint function is the constraint of its own problem, whichever thread calls it.",
     ["fault_sequences", "schedules"], "every callback at every call and thread", "Tests raise single exceptions on the main thread.",
     [PY], [("impl Problem for PyProblem, constraint_fn_N", PY)], DF + "value provenance and error side of every Python call over the MIR of the extension crate",
     "One known finding: constraint functions look their problem up in a thread-local.")
prop("C29", "User-supplied start points are validated and all used",
     "Custom points of the wrong dimension, with a NaN coordinate or outside the bounds make with_points fail with an error, and no other points do; accepted ones are all kept unchanged and handed to Stage 1, and every one of them that satisfies the problem's constraints is part of the initial reference set, however many there are.",
     ["inputs"], "every list of custom points", "Tests try single points.", [O, S], [("with_points, custom points in ScatterSearch", O)],
     DF + "validation guard and inclusion", "")
prop("C30", "Reported evaluation counts are the evaluations made",
     "The number of evaluations reported for a local search is the number of objective evaluations that search made, and the total shown to observers is the sum of Stage-1 and local-search evaluations.",
     ["inputs", "configurations"], "every solver", "Tests check that counts are positive.",
     [R, B, O], [("solve_with_tracking", R)], DF + "counter identity between the evaluation adapter and the report", "")
prop("C31", "Stage 1 hands its best reference point to the first local search",
     "The first local search of a run starts from the reference point of least objective found by Stage 1.",
     ["inputs", "configurations"], "every problem", "Tests look at the final solution only.", [O, S], [("ScatterSearch::run result", S)],
     DF + "start argument provenance", "")
prop("C32", "Stage 1 combines the best points and keeps the best",
     "Stage 1 builds its trial points from the best points of the reference set (its front after ordering by objective), refuses an evaluated trial for its objective only when it is not better than the worst reference point, and cuts the "
     "merged set back to the population_size points of least objective, leaving the best at its front, in order, and the worst at its end, where the next round looks for them; improving points are never dropped in favour of worse ones.",
     ["inputs", "schedules", "configurations"], "every reference set, trial list and seed",
     "Tests look at sizes and bounds of the reference set, not at which members survive.", [S], [("update_reference_set, generate_trial_points", S)],
     DF + "order of every selection and truncation", "")
prop("C33", "Checkpoints are saved when they are due",
     "With checkpointing set up, Stage 2 saves a checkpoint after every round (a single candidate, or a parallel batch) that takes the position past a multiple of save_frequency, and after no other; save_frequency 0 disables these saves. "
     "Whenever Stage 2 ends and run() returns its result, whatever ended it (all candidates examined, time limit, target objective), a final checkpoint has been saved.",
     ["inputs", "histories", "configurations"], "every problem, frequency, batch size and way Stage 2 ends",
     "Tests save at a couple of frequencies and look whether files exist.", [O], [("maybe_save_checkpoint, maybe_save_final_checkpoint", O)],
     DF + "guards of the save calls against the due condition, over every path round the loop and every result path", "Whether a round is due is compared on a grid of small frequencies and positions.")
prop("C34", "Solution sets and checkpoints show what they hold",
     "len, is_empty, solutions() and indexing of a solution set read exactly its stored solutions. Its printed forms show their number, the best objective, and every stored solution once, in order, under its number, with its own objective and point; "
     "with constraints, each of the problem's constraints is evaluated at the point it is listed under, shown as satisfied iff its value is at least 0, and otherwise as violated by the negated value. "
     "display_with_problem leaves the constraints out only if there are none. A printed checkpoint shows under each label the field it names.",
     ["inputs"], "every solution set, problem and checkpoint",
     "Tests look for a few words in the text of one small set.", [T], [("SolutionSet, Display", T)],
     DF + "values reaching the formatting calls, per loop round and path", "")
prop("N01", "The best minimum found is the global minimum",
     "With enough iterations the returned solutions include the problem's global minimum to solver accuracy.",
     ["inputs"], "every problem", "Unbounded over problems.", [O], [("algorithm", O)], "",
     "Convergence and solution quality quantify over run-time values of arbitrary user functions; no static argument bounds them.")
prop("N02", "Restored checkpoints equal saved ones byte for value",
     "Decoding a checkpoint file yields the value that was encoded, for every value.",
     ["inputs"], "every checkpoint value", "Unbounded over values.", [K], [("bincode encode/decode", K)], "",
     "This is a property of the bincode and serde implementations outside the repository; C14 decides the repository's own part (which fields are captured, derived and restored).")
prop("N03", "Time limits are honoured within a bounded delay",
     "The run returns within a bounded time after the limit expires.",
     ["schedules"], "every user function and machine", "Depends on the running time of user code.", [O], [("max_time", O)], "",
     "The delay is the running time of one user evaluation or local search, which is a run-time quantity; C07 decides that no search starts after expiry.")
