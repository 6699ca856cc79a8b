"""The properties, what decides them, and how much each tier runs.

properties.jsonl and MANIFEST.json are generated from this file by gen.py.
"""

SERIAL = "The simulator serialises threads and explores sequentially consistent interleavings; weaker-memory effects are covered by its happens-before race detector, not by executing reorderings."
SAMPLED = "Seeded sampling of schedules, inputs and faults: a clean batch is evidence, not proof."
ABSL = "Abseil logging (absent from the installed version) is stood in for by /verif/shim; the rest of Abseil and Eigen are the installed ones and run real."
FP = "References are recomputed in double precision by straightforward dense code; comparisons carry tolerances far above rounding and far below any wrong term."

REAL_EXEC = ["internal/ceres/thread_pool.cc", "internal/ceres/concurrent_queue.h", "internal/ceres/thread_token_provider.cc", "internal/ceres/parallel_for.h", "internal/ceres/parallel_invoke.h", "internal/ceres/context_impl.cc"]
REAL_ALL = ["all of libceres compiled from /repo (every .cc built without SuiteSparse, LAPACK, CUDA)", "Eigen", "libstdc++"]
STUB = ["pthread mutexes, condition variables, threads, once, joins: simulated, one thread runs at a time, the seed decides which", "clock_gettime / gettimeofday / nanosleep: simulated clock", "malloc / operator new: simulated heap with red zones, quarantine and garbage fill", "absl/log: /verif/shim", "ceres/internal/{config,export}.h: the generated configuration (no SuiteSparse, LAPACK, CUDA)"]
STUB_DISK = STUB + ["fopen / fwrite / fprintf / fread / fseek / fclose: simulated disk with injected failures"]


def prop(id, title, statement, over, text, why, files, mechanism, rule, real=REAL_ALL, stub=STUB, assume=(), level="exploration", note="", **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]),
             rule=rule, level=level, real=list(real), stub=list(stub), assumptions=[SERIAL, SAMPLED, ABSL] + list(assume),
             level_note=note or "Seeded exploration of schedules, inputs and faults in one deterministic process; every violation is replayed and minimised. Assumes sequential consistency plus race freedom (checked).")
    d.update(kw)
    return d


PROPS = [
    prop("C01", "Parallel loops run every index exactly once and finish before returning",
         "A parallel loop over a range runs its body exactly once for every index in the range, with all effects visible to the caller when it returns, whatever the number of threads, the partition of the range, nesting of loops, other users of the same worker threads, or the schedule. No two bodies run at the same time with the same thread id, ids stay below the requested number of threads, never more bodies run at once than threads were requested, and a single-threaded loop runs on the calling thread. Vector operations built on these loops give the values of their serial definitions.",
         ["schedules", "inputs", "configurations", "fault_sequences"],
         "Every interleaving of caller, workers and other pool users; every range, partition, cost function, block size, thread count, nesting depth and platform thread limit; spurious wake-ups.",
         "The existing parallel_for tests run a few shapes under whatever schedule the machine happens to produce; a lost index, a shared id or an early return needs a particular interleaving of work claiming, completion counting and caller exit.",
         ["internal/ceres/parallel_for.h", "internal/ceres/parallel_invoke.h", "internal/ceres/parallel_invoke.cc", "internal/ceres/partition_range_for_parallel_for.h", "internal/ceres/parallel_vector_ops.h"],
         [("work claimed in blocks by an atomic counter", "internal/ceres/parallel_invoke.h ParallelInvokeState / ParallelInvoke"), ("completion barrier", "internal/ceres/parallel_invoke.cc BlockUntilFinished"), ("partition of ranges by cost", "internal/ceres/partition_range_for_parallel_for.h")],
         "A run builds a tree of 1-3 nested loops over random ranges, thread counts, partitions and body costs in a fresh context while other threads use the same pool, under a seeded schedule; non-trivial when bodies overlapped on at least two threads; distinct by history hash.",
         real=REAL_EXEC + ["internal/ceres/parallel_vector_ops.cc"]),
    prop("C02", "The thread pool runs every task exactly once and survives thread exhaustion",
         "Every task added to a thread pool runs exactly once, on a worker, and has completed when the destructor of the pool returns, provided at least one worker could be started. Resizing never loses workers or tasks and brings the pool to the requested size, capped by the hardware, unless the platform refuses to create a thread, in which case the pool keeps working with the threads it has. Neither adding, resizing nor destruction can deadlock or leave a thread running.",
         ["schedules", "histories", "fault_sequences", "configurations"],
         "Every interleaving of adds, resizes, tasks adding tasks and destruction; every subset of failing thread creations, in construction and in resizing.",
         "The thread pool tests use fixed programs on an unconstrained machine where thread creation never fails and the destructor rarely races with adds.",
         ["internal/ceres/thread_pool.cc", "internal/ceres/thread_pool.h", "internal/ceres/context_impl.cc"],
         [("tasks queue drained after stop", "internal/ceres/thread_pool.cc ThreadPool::ThreadMainLoop, Stop"), ("resize under lock", "internal/ceres/thread_pool.cc ThreadPool::Resize")],
         "A run is a random program of AddTask, Resize, Size, tasks that add tasks or resize, by several user threads on one pool, with thread creation failing at random; non-trivial when tasks ran on at least two workers or a thread creation failed; distinct by history hash.",
         real=REAL_EXEC),
    prop("C03", "The work queue is linearizable and thread tokens are exclusive",
         "Every history of push, pop, blocking wait, stop and restart on the shared queue has a sequential first-in first-out explanation, loses and duplicates nothing, and a blocked consumer is woken by every push and by a stop. A thread token is held by at most one holder at a time, never leaves its range, and is available again after its release.",
         ["schedules", "histories"],
         "Every interleaving of up to five producers and consumers over every history of queue operations with a stop at any point, and of holders with any pattern of acquisition and nesting.",
         "Tests check a handful of timed scenarios; a missed wake-up or duplicate element needs a specific interleaving between the check of the queue and the wait.",
         ["internal/ceres/concurrent_queue.h", "internal/ceres/thread_token_provider.cc", "internal/ceres/thread_token_provider.h"],
         [("condition variable with a predicate", "internal/ceres/concurrent_queue.h Wait, StopWaiters"), ("tokens handed over by a queue", "internal/ceres/thread_token_provider.cc Acquire/Release")],
         "A run generates per-thread operation sequences with unique values and checks the recorded invoke/return history with a linearizability checker against a sequential queue; non-trivial when operations of different threads overlapped; distinct by history hash.",
         real=["internal/ceres/concurrent_queue.h", "internal/ceres/thread_token_provider.cc"]),
    prop("C04", "Evaluation equals its definition on any number of threads, failures included",
         "Evaluating a problem gives the cost, residuals, gradient and Jacobian that the cost functions, losses, manifolds and requested block orders define, for every number of threads, schedule and Jacobian representation, at exactly the point requested. If a cost function or manifold fails or produces non-finite values the evaluation reports failure, otherwise it succeeds; either way the user's parameters, the problem and later evaluations are unaffected, and no evaluation outlives the call.",
         ["schedules", "inputs", "fault_sequences", "configurations"],
         "Every interleaving of evaluating threads; every problem, subset and order of blocks, loss, manifold, constancy; any set of failing cost functions and manifolds in any sequence of evaluations.",
         "Evaluator tests compare fixed small problems mostly single threaded, and never let a function fail in one of several threads at a chosen moment.",
         ["internal/ceres/program_evaluator.h", "internal/ceres/residual_block.cc", "internal/ceres/problem_impl.cc", "internal/ceres/program.cc", "internal/ceres/corrector.cc"],
         [("per-thread scratch merged after the loop", "internal/ceres/program_evaluator.h Evaluate"), ("abort flag", "internal/ceres/program_evaluator.h Evaluate"), ("state restored by a scope guard", "internal/ceres/problem_impl.cc Evaluate"), ("invalid evaluations detected", "internal/ceres/residual_block.cc, residual_block_utils.cc")],
         "A run draws a problem (sizes, sharing, losses, manifolds, constant blocks, bounds), a sequence of evaluations with random options and threads, and failing cost functions; results are compared with a dense reference evaluation; non-trivial when evaluations overlapped on several threads or failed; distinct by history hash.",
         assume=[FP]),
    prop("C05", "Every linear solver and kernel computes what its matrices define",
         "Every direct and iterative linear solver, preconditioner and matrix kernel returns the solution or product its inputs define, to the accuracy it promises, on any number of threads, under any schedule, for any block structure and for repeated use of one solver on changing values; its inputs are not modified. A solver that cannot solve says so instead of returning something else.",
         ["schedules", "inputs", "configurations", "histories"],
         "Every interleaving of worker threads; every block structure, elimination group, regularisation, solver, ordering, preconditioner, refinement and precision option; repeated solves with changed values.",
         "Solver tests use a few stored problems, one structure per test, one schedule, and rarely reuse a solver with changed values or on several threads.",
         ["internal/ceres/schur_complement_solver.cc", "internal/ceres/schur_eliminator_impl.h", "internal/ceres/block_sparse_matrix.cc", "internal/ceres/partitioned_matrix_view_impl.h", "internal/ceres/cgnr_solver.cc", "internal/ceres/iterative_schur_complement_solver.cc", "internal/ceres/dense_cholesky.cc", "internal/ceres/sparse_cholesky.cc", "internal/ceres/inner_product_computer.cc"],
         [("per-thread buffers and cell locks", "internal/ceres/schur_eliminator_impl.h, block_random_access_matrix.h"), ("transpose structure for parallel products", "internal/ceres/block_sparse_matrix.cc"), ("iterative refinement", "internal/ceres/iterative_refiner.cc")],
         "A run draws a block-sparse system, a solver configuration, a kernel or a history of matrix operations with thread counts and repetitions and compares with dense references, conjugate gradients included; non-trivial when the work ran on at least two threads; distinct by history hash.",
         assume=[FP, "Systems are drawn well enough conditioned that the tolerance separates rounding from error."]),
    prop("C06", "The outcome of a solve does not depend on threads or schedule",
         "Solving the same problem from the same point with the same exact settings takes the same steps and returns the same result, up to rounding, for every number of threads, every schedule and every algebraically equivalent linear solver. Solving never races, deadlocks, uses more threads than allowed, or leaves evaluations running after it returns.",
         ["schedules", "inputs", "configurations"],
         "Every interleaving of the threads of a solve; every problem, minimiser, strategy, linear solver, preconditioner, loss, manifold and number of threads.",
         "System tests compare final costs of a few problems at a loose tolerance under one schedule; schedule-dependent loss of a contribution shows only in rare interleavings and is hidden by the iteration's self-correction.",
         ["internal/ceres/solver.cc", "internal/ceres/trust_region_minimizer.cc", "internal/ceres/line_search_minimizer.cc", "internal/ceres/program_evaluator.h", "internal/ceres/schur_eliminator_impl.h", "internal/ceres/coordinate_descent_minimizer.cc"],
         [("evaluation, linear algebra and inner iterations all run on the shared pool", "internal/ceres/parallel_for.h users"), ("trust region loop", "internal/ceres/trust_region_minimizer.cc Minimize")],
         "A run solves a random problem serially with a dense reference configuration and again with a random configuration and thread count under a seeded schedule, and compares every iteration; non-trivial when more than two iterations were compared; distinct by history hash.",
         assume=[FP, "Iterations after the cost has stopped changing, and steps whose acceptance is a near tie, are not compared."]),
    prop("C07", "Whatever fails during a solve, the caller's parameters stay valid",
         "Whatever cost functions, manifolds, callbacks or thread creations fail, and whenever they do, a solve ends by returning (or by reporting that threads cannot be created), and leaves the caller's parameters either exactly as they were, if it reports no usable solution, or at the point whose cost it reports, which is no worse than the start. The problem itself, its constant blocks, bounds and manifolds are untouched, and the same solve repeated without failures behaves exactly as it did before them.",
         ["fault_sequences", "schedules", "inputs", "configurations", "histories"],
         "Every sequence of failing or non-finite evaluations, manifold operations, aborting callbacks and refused threads at any point of a solve, on any number of threads.",
         "Unit tests inject one failure at a fixed evaluation of a trivial problem; the guarantee is about any failure at any point of the many solver configurations.",
         ["internal/ceres/solver.cc", "internal/ceres/trust_region_minimizer.cc", "internal/ceres/line_search_minimizer.cc", "internal/ceres/preprocessor.cc", "internal/ceres/program.cc"],
         [("user state written only from a usable solution, restored otherwise", "internal/ceres/solver.cc Minimize / PostSolveSummarize / Solve"), ("best point tracked", "internal/ceres/trust_region_minimizer.cc FinalizeIterationAndCheckIfMinimizerCanContinue"), ("reduced program owns copies", "internal/ceres/program.cc")],
         "A run solves once cleanly for reference, then once or twice under injected evaluation, manifold, callback and thread creation failures, then again cleanly and compares bit by bit with the reference; all general solve oracles are armed; non-trivial when a fault fired during a solve; distinct by history hash.",
         assume=[FP]),
    prop("C08", "Failures at trial points cost steps, not correctness",
         "If cost functions or manifolds cannot be evaluated at a trial point, the step is rejected and the solve goes on from the last accepted point with a smaller step; no point at which evaluation failed is ever accepted or returned. Once such failures stop, the solve still converges to a stationary point.",
         ["fault_sequences", "inputs", "schedules", "configurations"],
         "Every pattern of transient failures at trial points, every region in which the cost functions are undefined, every trust region strategy and linear solver, on any number of threads.",
         "A test checks one failing evaluation with one solver; which trial point fails in which iteration of which strategy is a large space.",
         ["internal/ceres/trust_region_minimizer.cc", "internal/ceres/trust_region_step_evaluator.cc", "internal/ceres/levenberg_marquardt_strategy.cc", "internal/ceres/dogleg_strategy.cc", "internal/ceres/line_search.cc"],
         [("a failed evaluation is an infinite cost", "internal/ceres/trust_region_minimizer.cc ComputeCandidatePointAndEvaluateCost"), ("rejected step shrinks the region", "internal/ceres/levenberg_marquardt_strategy.cc StepRejected, dogleg_strategy.cc StepRejected")],
         "A run solves with cost functions or manifolds failing transiently at trial points, or cost functions failing in a random half space, and checks acceptance, radii, bounded progress after faults stop, and stationarity of the result; non-trivial when a trial evaluation failed; distinct by history hash.",
         assume=[FP]),
    prop("C09", "Iteration callbacks see every iteration once, in order, and their verdict holds",
         "Iteration callbacks run once per iteration, in the order given, on the thread that called the solve, while nothing is being evaluated, and are told the same values the summary reports. If one stops the solve, no later callback runs and nothing is evaluated afterwards, and the result says so. With state updates requested the caller's parameters are the best point found so far whenever a callback runs, otherwise they are untouched until the solve ends.",
         ["schedules", "histories", "fault_sequences", "configurations"],
         "Every number of callbacks stopping at any iteration in any way, with slow callbacks, failing evaluations and any number of threads.",
         "Tests use one callback that stops at a fixed iteration; state visible in callbacks after rejected or failed steps, and evaluations still running, need specific histories and schedules.",
         ["internal/ceres/callbacks.cc", "internal/ceres/minimizer.cc", "internal/ceres/trust_region_minimizer.cc", "internal/ceres/line_search_minimizer.cc", "internal/ceres/solver.cc"],
         [("state updating callback runs first", "internal/ceres/solver.cc, callbacks.cc"), ("callbacks run between iterations", "internal/ceres/minimizer.cc RunCallbacks")],
         "A run solves with 0-3 callbacks that record, delay and stop at random, checks each call while it runs and the recorded calls against the summary; non-trivial when more than two calls were made; distinct by history hash.",
         assume=[FP]),
    prop("C10", "Evaluation callbacks precede every evaluation with the right state",
         "With an evaluation callback, no cost function is evaluated before the callback has been called for exactly the point at which it is evaluated, already stored in the caller's parameters, with Jacobians announced if they are computed. A point announced as unchanged is unchanged, and the callback never runs while cost functions are being evaluated.",
         ["schedules", "histories", "fault_sequences", "configurations"],
         "Every sequence of trial, accepted, rejected and failed points of every minimiser and line search, on any number of threads.",
         "The evaluation callback tests follow a few fixed trajectories; the contract must hold for every path through step rejection, line search fallback and failure.",
         ["internal/ceres/program_evaluator.h", "internal/ceres/trust_region_minimizer.cc", "internal/ceres/line_search_minimizer.cc", "internal/ceres/line_search.cc", "internal/ceres/problem_impl.cc"],
         [("user state set and callback invoked before evaluation", "internal/ceres/program_evaluator.h Evaluate"), ("new-point bookkeeping", "internal/ceres/line_search_minimizer.cc, trust_region_minimizer.cc")],
         "A run solves once or twice with an evaluation callback whose record is compared at every cost function call; non-trivial when more than one new point was announced; distinct by history hash.",
         assume=[FP]),
    prop("C11", "Time and iteration limits end a solve with its best point, on any clock",
         "No iteration starts after the time or iteration limit is exceeded, and a solve ended by a limit reports that and returns its best point. The times in the summary are consistent with the clock, never negative and never out of order while the clock is monotonic, and jumps of the clock cause neither a crash, a hang nor a wrong result.",
         ["histories", "schedules", "fault_sequences", "configurations"],
         "Every time limit, speed of cost functions and callbacks, and jump of the clock at any reading, for every minimiser.",
         "Tests cannot control the clock: they use real time with limits that are never reached.",
         ["internal/ceres/trust_region_minimizer.cc", "internal/ceres/line_search_minimizer.cc", "internal/ceres/solver.cc", "internal/ceres/line_search.cc"],
         [("limits checked per iteration", "internal/ceres/trust_region_minimizer.cc MaxSolverTimeReached / MaxSolverIterationsReached"), ("times recorded", "internal/ceres/solver.cc Solve, minimizers")],
         "A run solves on the simulated clock with slow evaluations and callbacks, tight limits and clock jumps, and checks limits, times and results; non-trivial when a limit ended the solve; distinct by history hash.",
         assume=[FP]),
    prop("C12", "Constant blocks, bounds and manifolds bind at every evaluated point",
         "At every point at which a solve evaluates cost functions, and in what it returns, constant parameter blocks and coordinates fixed by a manifold have exactly their initial values, every bounded coordinate lies within its bounds and every block stays on its manifold, whatever the solver, thread count or failures. A block whose constancy changes between solves is treated accordingly in the next one.",
         ["inputs", "schedules", "histories", "configurations", "fault_sequences"],
         "Every mixture of constant, bounded and manifold blocks with infeasible starts, changed between solves, under every trust region configuration and failing trial points.",
         "Tests check the returned values of small bounded problems; a trial point outside the feasible set, or a constant block moved during the solve and put back, is invisible to them.",
         ["internal/ceres/parameter_block.h", "internal/ceres/program.cc", "internal/ceres/trust_region_minimizer.cc", "internal/ceres/reorder_program.cc", "internal/ceres/coordinate_descent_minimizer.cc"],
         [("projection onto bounds in Plus", "internal/ceres/parameter_block.h Plus"), ("constant blocks removed from the reduced program", "internal/ceres/program.cc RemoveFixedBlocks"), ("projected line search", "internal/ceres/trust_region_minimizer.cc DoLineSearch")],
         "A run solves a random bounded problem one to three times, changing constancy between solves, and checks every argument of every cost function call; non-trivial when a solve made more than two iterations; distinct by history hash.",
         assume=[FP]),
    prop("C13", "A problem is what its history of changes says, and owns what it was given",
         "After any history of adding, removing and changing parameter and residual blocks, evaluating and solving, including failed evaluations and solves, every query and evaluation answers what a simple model of the remaining problem says. Every cost function, loss function and manifold is deleted exactly once if the problem owns it, never while in use and never if it does not, and no failure leaves the problem unusable.",
         ["histories", "fault_sequences", "configurations", "schedules"],
         "Every sequence of public operations with sharing of functions, fast removal on or off, all ownership modes, failing functions, manifolds and thread creation, and moves of the problem.",
         "The problem tests walk short scripted histories without failures or solves in between.",
         ["internal/ceres/problem_impl.cc", "internal/ceres/problem.cc", "internal/ceres/program.cc", "internal/ceres/residual_block.cc", "internal/ceres/parameter_block.h"],
         [("reference counts of shared functions", "internal/ceres/problem_impl.cc cost_function_ref_count_"), ("dependent residuals tracked or scanned", "internal/ceres/problem_impl.cc RemoveParameterBlock, GetResidualBlocksForParameterBlock"), ("swap-with-last removal", "internal/ceres/problem_impl.cc DeleteBlockInVector")],
         "A run performs 4-40 random operations on a problem and on its reference model and compares everything observable after each; non-trivial when something was removed after at least three additions; distinct by history hash.",
         assume=[FP], technique="deterministic simulation: reference-model refinement over operation histories with fault injection"),
    prop("C14", "Problems used at the same time do not affect one another",
         "Problems used at the same time, on several threads of the caller, sharing a context and its worker threads, sharing cost functions, or nested inside the cost functions and callbacks of another solve, each evaluate and solve as they would alone, whatever the others do, and whenever they fail, stop or grow the shared thread pool. None waits for another forever.",
         ["schedules", "histories", "fault_sequences", "configurations"],
         "Every interleaving of up to four users that evaluate, solve and change their own problems with different options and numbers of threads; every nesting of a solve in an evaluation; failing evaluations and refused threads in any of them.",
         "No test runs two problems at once; sharing of the worker threads and of hidden global or static state shows only when users overlap.",
         ["include/ceres/context.h", "internal/ceres/context_impl.cc", "internal/ceres/thread_pool.cc", "internal/ceres/parallel_invoke.h", "internal/ceres/problem_impl.cc", "internal/ceres/solver.cc"],
         [("shared context documented as usable serially or in parallel", "include/ceres/context.h"), ("the calling thread takes part in the work, so a busy pool delays but never blocks", "internal/ceres/parallel_invoke.h"), ("pool grows under its lock", "internal/ceres/thread_pool.cc Resize")],
         "A run gives 2-4 threads (or nested solves) a problem each on shared or own contexts, records what each does alone and compares with what it does with the others (bit by bit on one thread, up to rounding on several); non-trivial when users overlapped; distinct by history hash.",
         assume=[FP]),
    prop("C15", "Covariance estimates are right or refused, under any failure or schedule",
         "Covariance::Compute succeeds exactly when the Jacobian at the current parameters can be evaluated and, for the chosen algorithm and options, has the rank needed, and then every requested block equals that block of the inverse (or pseudo inverse) of the Gauss-Newton matrix, in tangent or ambient space, zero for constant blocks. It returns false, and never wrong numbers, when a cost function, a manifold or a thread fails, or a block was not computed. Parameters, problem and earlier uses of the same object are left intact.",
         ["inputs", "fault_sequences", "schedules", "histories", "configurations"],
         "Every small problem with manifolds, bounds, constant blocks and losses, full rank or not, every algorithm and option, every list of block pairs and order of queries, repeated computations on one object, any number of threads, every failing evaluation, manifold operation or thread creation.",
         "Unit tests compare a few fixed problems on a correct run; they never fail an evaluation, query what was not computed, reuse the object after a failure or explore schedules.",
         ["internal/ceres/covariance.cc", "internal/ceres/covariance_impl.cc", "include/ceres/covariance.h"],
         [("failing evaluation fails Compute", "internal/ceres/covariance_impl.cc ComputeCovarianceValues"), ("rank decided by the algorithm's documented rule", "include/ceres/covariance.h Options"), ("lifting with PlusJacobian", "internal/ceres/covariance_impl.cc GetCovarianceBlockInTangentOrAmbientSpace")],
         "A run draws a problem, options and 1-4 Compute calls (each with its own faults) followed by queries; every number is compared with a dense SVD reference within a conditioning-aware tolerance; non-trivial when some covariance was compared or some fault fired; distinct by history hash.",
         assume=[FP]),
    prop("C16", "Gradient solves end in a true, usable result whatever the function does",
         "For every function, manifold and option, GradientProblemSolver returns either a usable result, whose cost equals final_cost, does not exceed initial_cost and satisfies the condition that the reported reason names, or leaves the parameters as documented and says so; every step it accepts satisfies the sufficient decrease condition and stays on the manifold. Values that are false, infinite or NaN are never accepted, callbacks see every iteration in order with its state and can stop the solve at once, and limits and evaluation counts are exact. A solve leaves nothing behind that changes the next one or one that runs at the same time.",
         ["inputs", "fault_sequences", "histories", "configurations"],
         "Every smooth function on every provided manifold, all directions, searches, interpolations and limits, any sequence of failing or non-finite evaluations and failing manifold operations, clocks that jump, callbacks that stop at any point, several solves at once.",
         "The tests solve two fixed functions that never fail.",
         ["internal/ceres/gradient_problem_solver.cc", "internal/ceres/gradient_problem.cc", "internal/ceres/gradient_problem_evaluator.h", "internal/ceres/line_search_minimizer.cc", "internal/ceres/line_search.cc", "internal/ceres/line_search_direction.cc", "include/ceres/gradient_problem_solver.h"],
         [("failed samples are never selected", "internal/ceres/line_search.cc"), ("solution copied only if usable", "internal/ceres/gradient_problem_solver.cc Solve"), ("sufficient decrease", "include/ceres/gradient_problem_solver.h Options")],
         "A run draws a function, manifold, options and callbacks and solves it undisturbed, under 1-2 fault plans and undisturbed again (bitwise equal to the first); all conditions are recomputed from the function itself; non-trivial when a solve made two or more iterations or a fault fired; distinct by history hash.",
         assume=[FP]),
    prop("C17", "Dumps and files are complete or reported, and never disturb a solve",
         "A trust region problem dumped during a solve is complete and describes the linear problem of that iteration, or the failure is logged; either way the solve takes exactly the course it takes without dumps. DumpLinearLeastSquaresProblem returns true, and the file helpers return, only if every byte was transferred, whatever the disk does. No file is left open.",
         ["inputs", "fault_sequences", "configurations"],
         "Every small problem and solver, every set of iterations and directory to dump to; every open, write, read, seek or close that fails or transfers part of the data.",
         "Tests never dump, and no test has a failing disk.",
         ["internal/ceres/linear_least_squares_problems.cc", "internal/ceres/file.cc", "internal/ceres/levenberg_marquardt_strategy.cc", "internal/ceres/dogleg_strategy.cc", "internal/ceres/trust_region_minimizer.cc", "internal/ceres/block_sparse_matrix.cc", "internal/ceres/compressed_row_sparse_matrix.cc", "internal/ceres/dense_sparse_matrix.cc", "internal/ceres/triplet_sparse_matrix.cc"],
         [("errors of writes and of the close are checked", "internal/ceres/linear_least_squares_problems.cc WriteToFile"), ("a failing dump is logged and ignored", "internal/ceres/levenberg_marquardt_strategy.cc ComputeStep"), ("sizes checked", "internal/ceres/file.cc")],
         "A run solves a problem without and with dumps on a simulated disk and compares bit by bit, parses the dumps and recomputes the step's equations and the iterate's cost from them; or dumps random matrices of every type; or writes and reads files. Non-trivial when a dump was verified or a disk fault fired; distinct by history hash.",
         assume=[FP]),
    prop('C18', 'Derivative checks find every wrong Jacobian and disturb nothing else',
         'With check_gradients a Jacobian entry that is wrong by more than the tolerance at a point of the solve makes the solve end with FAILURE, naming every residual block concerned and leaving the parameters as they were, whatever else ends the solve. When every Jacobian is right nothing is reported, and the solve takes the course it takes without the check, with the same evaluation callbacks, solver and preconditioner. GradientChecker::Probe reports exactly the entries that differ, and fails if an evaluation or a manifold fails, whether or not other threads use the checker.',
         ['inputs', 'schedules', 'fault_sequences', 'configurations'],
         'Every problem, solver, thread count and schedule; every entry, residual block and part of the parameter space where a Jacobian is wrong; every failing evaluation or manifold.',
         'Tests check fixed cost functions with one wrong entry on one thread, and never compare a checked solve with the unchecked one.',
         ['internal/ceres/gradient_checker.cc', 'internal/ceres/gradient_checking_cost_function.cc', 'internal/ceres/solver.cc', 'internal/ceres/is_close.cc', 'include/ceres/dynamic_numeric_diff_cost_function.h', 'include/ceres/internal/numeric_diff.h'],
         [('errors are collected from all threads', 'internal/ceres/gradient_checking_cost_function.cc SetGradientErrorDetected'), ('the verdict replaces the termination type', 'internal/ceres/solver.cc Minimize'), ('tangent-space comparison', 'internal/ceres/gradient_checker.cc Probe')],
         'A run solves a random problem without and with checks and compares bit by bit, or with Jacobians made wrong in some entries everywhere, away from the start, at the start or in a half-space, with failing evaluations; or probes random cost functions from several threads and recomputes verdict and log. Non-trivial when a comparison was made, an error reported or a fault fired; distinct by history hash.',
         assume=[FP, "Entries finite differences cannot confirm (below 1e-3, or at points beyond 4) may be reported although right."]),
    prop('C19', 'Ready-made cost functions fail when the functor fails, and are right',
         'The cost functions, first-order functions and manifolds Ceres builds from user functors (automatic and numeric differentiation with fixed or dynamic sizes, cost functions as functors, conditioned costs, priors) return false whenever one of the evaluations of the functor fails, and only then. When they return true they have written exactly the residuals and the Jacobians that were asked for, with the right values, and left the parameters alone. This holds when one object is used by several threads or residual blocks at once, and every functor is destroyed exactly once by its owner.',
         ['inputs', 'schedules', 'fault_sequences', 'configurations'],
         'Every size, method, subset of requested Jacobians, nesting of wrappers, failing evaluation, thread count and schedule, and ownership.',
         'Tests evaluate fixed functors that never fail, on one thread, mostly with all Jacobians requested.',
         ['include/ceres/autodiff_cost_function.h', 'include/ceres/dynamic_autodiff_cost_function.h', 'include/ceres/numeric_diff_cost_function.h', 'include/ceres/dynamic_numeric_diff_cost_function.h', 'include/ceres/internal/numeric_diff.h', 'include/ceres/internal/autodiff.h', 'include/ceres/jet.h', 'include/ceres/cost_function_to_functor.h', 'include/ceres/autodiff_manifold.h', 'include/ceres/product_manifold.h', 'include/ceres/autodiff_first_order_function.h', 'internal/ceres/conditioned_cost_function.cc', 'internal/ceres/normal_prior.cc'],
         [('failing perturbed evaluation', 'include/ceres/internal/numeric_diff.h EvaluateJacobianColumn'), ('chunked dual numbers', 'include/ceres/dynamic_autodiff_cost_function.h Evaluate'), ('scratch space per call', 'include/ceres/internal/numeric_diff.h')],
         'A run builds cost functions of random kind, nesting and sizes over functors with known long-double derivatives, evaluates them from several threads or through a multi-threaded Problem with injected functor failures, and compares results, canaries behind every output, and functor lifetimes. Non-trivial when a functor failed or threads overlapped; distinct by history hash.',
         assume=[FP]),
    prop('C20', 'Every iteration is the step its algorithm defines, judged by its own model',
         'Every trust region iteration (Levenberg-Marquardt, dogleg) tries the step its method defines at the current point and radius, compares the actual with the predicted decrease, accepts or rejects and changes the radius accordingly, and every line search iteration moves along the defined search direction (steepest descent, conjugate gradients, (L)BFGS) by a step size that meets the Armijo or Wolfe conditions. The iteration summaries report exactly this (costs, cost changes, step and gradient norms, radii, ratios, evaluation and solve counts), and the solve ends for the stated reason as soon as, and not before, that termination criterion holds. All of it holds in whatever pattern trial points fail to evaluate, with any linear solver and number of threads.',
         ['inputs', 'schedules', 'fault_sequences', 'configurations'],
         'Every problem, minimizer configuration, pattern of failing trial points, thread count and schedule.',
         'Tests check that solves of fixed problems end at the known minimum: a wrong radius update, restart or curvature condition still gets there, more slowly.',
         ['internal/ceres/trust_region_minimizer.cc', 'internal/ceres/trust_region_step_evaluator.cc', 'internal/ceres/levenberg_marquardt_strategy.cc', 'internal/ceres/dogleg_strategy.cc', 'internal/ceres/line_search_minimizer.cc', 'internal/ceres/line_search.cc', 'internal/ceres/line_search_direction.cc', 'internal/ceres/low_rank_inverse_hessian.cc', 'internal/ceres/polynomial.cc'],
         [('state across rejected and failed steps', 'internal/ceres/levenberg_marquardt_strategy.cc StepRejected; internal/ceres/dogleg_strategy.cc ComputeStep'), ('nonmonotonic reference', 'internal/ceres/trust_region_step_evaluator.cc StepAccepted'), ('curvature history', 'internal/ceres/low_rank_inverse_hessian.cc Update'), ('bracketing and zoom', 'internal/ceres/line_search.cc WolfeLineSearch')],
         'A run solves a random problem with injected trial failures, observes every evaluated point through the cost functions, and replays the solve against an independent dense reference: step, model decrease, ratio, verdict, radius, direction, step size, gradient norms, counts and termination of every iteration. Non-trivial when at least two steps were compared; distinct by history hash.',
         assume=[FP]),
    prop('C21', "A solve's summary accounts for its problem, options and time",
         "The Solver::Summary and the reports made from it state what happened: the parts of the problem that were given and those that took part, the cost of the fixed part, the options given and those used instead (threads, linear solver, preconditioner, orderings, inner iterations, mixed precision), how many steps and evaluations there were, and where the time went. The counts and the times agree with what the user's functions and callbacks observed, for the whole solve and for every iteration. The caller's options and the orderings they refer to are as they were after every solve, successful or not.",
         ['inputs', 'schedules', 'fault_sequences', 'configurations'],
         "Every problem, configuration, failure pattern, duration of the user's functions, thread count and schedule.",
         "A test's summary has counts for one problem and times nobody can predict; accounting errors show only with slow or failing functions, fixed parts, dropped groups or rejected steps.",
         ['internal/ceres/solver.cc', 'internal/ceres/trust_region_minimizer.cc', 'internal/ceres/line_search_minimizer.cc', 'internal/ceres/trust_region_preprocessor.cc', 'internal/ceres/line_search.cc', 'internal/ceres/execution_summary.h', 'internal/ceres/program.cc'],
         [('what was given and what remains', 'internal/ceres/solver.cc PreSolveSummarize, PostSolveSummarize; internal/ceres/program.cc RemoveFixedBlocks'), ('alternatives to the requested solver', 'internal/ceres/trust_region_preprocessor.cc'), ('per-iteration accounting', 'internal/ceres/trust_region_minimizer.cc FinalizeIterationAndCheckIfMinimizerCanContinue; internal/ceres/line_search_minimizer.cc'), ('times of concurrent evaluations', 'internal/ceres/execution_summary.h ScopedExecutionTimer')],
         'A run solves a random problem with constant blocks, orderings that lose groups, failing and slow user functions on a simulated clock, keeps its own books of every call and its duration, and compares the summary, every iteration and the numbers printed in the full report with them. Non-trivial when the solve took more than two iterations; distinct by history hash.',
         assume=[FP]),
    prop('C22', 'Any options are refused with a reason or solved, and never changed',
         "Options are valid exactly when they meet their documented constraints, and invalid ones are refused with a message that names the problem before any user function is called or any parameter changes. Valid options are solved as they say without aborting, on any problem, whatever functions fail: an ordering that does not fit the problem or initial values that are not finite end in a FAILURE with a message. The same holds for GradientProblemSolver, and the caller's options are unchanged by every solve.",
         ['inputs', 'configurations', 'fault_sequences', 'schedules'],
         'Every combination of option values including their boundaries, NaN and infinity, every ordering of blocks, foreign pointers and constant blocks, every problem, failure pattern and schedule.',
         'There are over seventy options, some of which only matter together with a solver type or a dropped block; tests sample a few pairs.',
         ['internal/ceres/solver.cc', 'include/ceres/solver.h', 'include/ceres/gradient_problem_solver.h', 'internal/ceres/gradient_problem_solver.cc', 'internal/ceres/reorder_program.cc', 'internal/ceres/coordinate_descent_minimizer.cc', 'internal/ceres/trust_region_preprocessor.cc', 'internal/ceres/line_search_preprocessor.cc'],
         [('validity of the options', 'internal/ceres/solver.cc CommonOptionsAreValid, TrustRegionOptionsAreValid, LineSearchOptionsAreValid'), ('orderings against the problem', 'internal/ceres/reorder_program.cc ApplyOrdering, ReorderProgramForSchurTypeLinearSolver; internal/ceres/coordinate_descent_minimizer.cc Init; internal/ceres/trust_region_preprocessor.cc SetupLinearSolver'), ('refusal before work', 'internal/ceres/solver.cc Solve; internal/ceres/gradient_problem_solver.cc Solve')],
         'A run solves a random problem with options of which several are drawn from their boundaries, NaN, infinity and other legal values, and orderings with foreign, missing, constant and moved blocks. An executable restatement of the documented constraints says which must be refused; the rest must be solved under failing functions with the conservation laws of the other solves, and a refusal must leave no trace. Non-trivial when an option was perturbed; distinct by history hash.',
         assume=[FP]),
    prop('C23', 'The tiny solver returns its best point and true reason, whatever fails',
         'TinySolver returns the point of least cost among those it accepted, never a worse one than the start, with the costs, gradient, residuals, Jacobian and iteration count of that point and the status whose documented condition ended the solve. A function that returns false or NaN at the start, at a trial point or with its Jacobian is never taken for a point: trial points are rejected, and anything else ends in EVALUATION_FAILED at the last complete point. All of this holds for every static and dynamic size, through the cost function and automatic differentiation adapters, when one solver is used again, and when threads use solvers at once.',
         ['inputs', 'fault_sequences', 'histories', 'configurations', 'schedules'],
         'Every function, size, start, tolerance, failure pattern, sequence of solves and schedule of users.',
         "The solver's branches depend on when an evaluation fails and on what an earlier solve left behind; tests solve three small functions that never fail.",
         ['include/ceres/tiny_solver.h', 'include/ceres/tiny_solver_autodiff_function.h', 'include/ceres/tiny_solver_cost_function_adapter.h'],
         [('Levenberg-Marquardt loop, tolerances, failures', 'include/ceres/tiny_solver.h Solve, Update'), ('adapters', 'include/ceres/tiny_solver_cost_function_adapter.h; include/ceres/tiny_solver_autodiff_function.h')],
         "A run draws functions, starts and tolerances for nine instantiations of the solver, each solver used up to three times by one of up to three simulated threads, with calls that fail or return NaN by seeded decision. The call log is followed with the method's definition in extended precision: every trial point, every acceptance and the end must be the ones the definition gives, except where rounding leaves a decision open. Non-trivial when a solve took more than two iterations or a call failed; distinct by history hash.",
         assume=[FP]),
    prop('C24', 'Extreme values neither abort a solve nor make it return a worse point',
         'Functions whose values and derivatives run from the smallest to the largest doubles, overflow, become NaN or stop being defined a short step away never make a solve, an evaluation or a covariance estimate abort, hang or read a stale value, with any minimizer, linear solver and option. User functions are evaluated only at finite points; a usable solution is finite, can be evaluated, costs what the summary says and no more than the start, and without one the start is kept bit for bit. An evaluation or covariance that reports success contains no NaN.',
         ['inputs', 'fault_sequences', 'configurations', 'schedules'],
         'Every function, scale, start, option, failure pattern and thread schedule.',
         'Overflow and undefined regions are reached only by particular steps from particular points; tests use well scaled functions.',
         ['internal/ceres/residual_block.cc', 'internal/ceres/line_search.cc', 'internal/ceres/trust_region_minimizer.cc', 'internal/ceres/covariance_impl.cc', 'internal/ceres/corrector.cc'],
         [('validity of evaluations', 'internal/ceres/residual_block.cc Evaluate; internal/ceres/program_evaluator.h Evaluate'), ('rejection of invalid steps', 'internal/ceres/trust_region_minimizer.cc; internal/ceres/line_search.cc'), ('covariance of overflowing inverses', 'internal/ceres/covariance_impl.cc Compute')],
         "A run draws residuals that are exponentials, powers, poles, logarithms and tangents of scales up to 1e307 with walls behind which they are undefined, losses, bounds and options, and lets them fail by seeded decision while simulated threads are scheduled. The user's functions check every point they get, the outcome is compared with the functions' own values at the start and the end; an abort, hang or crash of the process is a violation. Non-trivial when a value or derivative above 1e150 or NaN was returned; distinct by history hash.",
         assume=[FP]),
]

def na(id, title, statement, text, why, files, mechanism, reason):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]), reason=reason)


PURE = "A pure function of its arguments: no concurrency, time, I/O, randomness or history for a simulated schedule or fault to act on; deciding it is input generation or proof, not simulation."
NA = [
    na("C31", "Automatic differentiation gives the exact derivatives of every expression",
       "For every expression built from the supported elementary functions, dual numbers carry its value and its exact partial derivatives, including at the documented special points.",
       "Every expression, every point, every number of derivatives.", "Tests sample a few points per function.",
       ["include/ceres/jet.h", "include/ceres/internal/autodiff.h"], [("chain rule per operation", "include/ceres/jet.h")], PURE + " (How the automatically differentiated functions behave inside threads and solves is C19.)"),
    na("C32", "Rotation conversions agree with each other on the whole rotation group",
       "Conversions between angle-axis, quaternion, matrix and Euler angles describe the same rotation and round-trip, for every rotation including angles near zero and near half a turn.",
       "Every rotation and every storage order.", "Tests sample random and a few degenerate rotations.",
       ["include/ceres/rotation.h"], [("branches near singularities", "include/ceres/rotation.h")], PURE),
    na("C33", "Manifold operations satisfy the manifold axioms",
       "For every provided manifold, adding a tangent vector and taking differences are inverse to each other near the point, adding zero is the identity, and the Jacobians are the derivatives of these maps.",
       "Every point, every tangent vector, every composition of manifolds.", "Tests sample random points.",
       ["include/ceres/manifold.h", "include/ceres/product_manifold.h", "include/ceres/sphere_manifold.h", "include/ceres/line_manifold.h", "internal/ceres/manifold.cc"], [("plus and minus", "internal/ceres/manifold.cc")], PURE + " (That solves respect the manifolds is C12.)"),
    na("C34", "Loss functions and their derivatives are consistent",
       "Every provided loss and every composition of losses returns its value and its first and second derivatives consistently, is the identity near zero where documented, and is continuous.",
       "Every squared norm, parameter and composition.", "Tests compare finite differences at a few points.",
       ["include/ceres/loss_function.h", "internal/ceres/loss_function.cc"], [("rho and derivatives", "internal/ceres/loss_function.cc")], PURE + " (Their effect on evaluations is part of C04.)"),
    na("C35", "Cubic interpolation reproduces its samples and their slopes",
       "Interpolated grids reproduce the stored samples, clamp outside the grid as documented and return derivatives that match the interpolated values.",
       "Every grid, data type, layout and point.", "Tests use polynomials on a few grids.",
       ["include/ceres/cubic_interpolation.h"], [("spline evaluation", "include/ceres/cubic_interpolation.h")], PURE),
]

#          quick: (runs, wall cap in s)      thorough
RUNS = {
    "C01": dict(quick=(14000, 45), thorough=(600000, 780)),
    "C02": dict(quick=(40000, 45), thorough=(900000, 780)),
    "C03": dict(quick=(50000, 45), thorough=(900000, 780)),
    "C04": dict(quick=(40000, 45), thorough=(900000, 780)),
    "C05": dict(quick=(48000, 60), thorough=(900000, 780)),
    "C06": dict(quick=(14000, 50), thorough=(300000, 780)),
    "C07": dict(quick=(36000, 50), thorough=(700000, 780)),
    "C08": dict(quick=(18000, 50), thorough=(400000, 780)),
    "C09": dict(quick=(40000, 45), thorough=(900000, 780)),
    "C10": dict(quick=(32000, 45), thorough=(700000, 780)),
    "C11": dict(quick=(40000, 45), thorough=(900000, 780)),
    "C12": dict(quick=(18000, 45), thorough=(400000, 780)),
    "C13": dict(quick=(30000, 50), thorough=(700000, 780)),
    "C14": dict(quick=(25000, 45), thorough=(700000, 780)),
    "C15": dict(quick=(24000, 45), thorough=(700000, 780)),
    "C16": dict(quick=(36000, 45), thorough=(900000, 780)),
    "C17": dict(quick=(36000, 45), thorough=(900000, 780)),
    "C18": dict(quick=(36000, 45), thorough=(900000, 780)),
    "C19": dict(quick=(36000, 45), thorough=(900000, 780)),
    "C20": dict(quick=(36000, 45), thorough=(900000, 780)),
    "C21": dict(quick=(36000, 45), thorough=(900000, 780)),
    "C22": dict(quick=(36000, 45), thorough=(900000, 780)),
    "C23": dict(quick=(36000, 45), thorough=(900000, 780)),
    "C24": dict(quick=(36000, 45), thorough=(900000, 780)),
}
