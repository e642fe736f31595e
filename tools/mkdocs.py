#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (developer helper, not used by the checks)."""
import json, os
V = "/verif"
EGO = "crates/ego/src/"
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), na=None, note=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                     "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}}
    P.append((d, na, note))

prop("C01", "An interrupted optimization always restarts from its checkpoint",
     "When a run with hot start enabled is killed at any instant (between or inside file operations, by a panic of the objective, or by a power loss), a later run with the same configuration starts without error or panic and completes. If a checkpoint of an iteration had been acknowledged on disk before the crash, the later run continues from it or from a newer one: it does not evaluate the initial design again and never returns a history shorter than, or different from, what was checkpointed.",
     ["crash_points", "histories", "configurations"],
     "every crash point of every run (each system call, torn writes, loss of unsynced data), chains of crashes, every optimizer configuration",
     "The tests stop runs only at iteration limits and never while a file is being written; no test crashes a process or looks at the disk after a torn or lost write.",
     [EGO+"utils/hot_start.rs", EGO+"utils/atomic_file.rs", EGO+"egor.rs", EGO+"solver/egor_state.rs"],
     [("HotStartCheckpoint::save writes a temporary file, syncs and renames it", EGO+"utils/hot_start.rs"), ("argmin Executor::checkpointing loads the checkpoint before init", EGO+"egor.rs")],
     [("egor_checkpoint.json", "serialized (solver, state) of the last finished iteration", EGO+"utils/hot_start.rs")], ["Egor::run result", "checkpoint file", "calls of the objective"])

prop("C02", "A run interrupted and resumed gives the result of the uninterrupted run",
     "With a fixed seed and hot start enabled, a run cut into pieces by crashes, SIGINT, or by splitting its budget with the extended-iterations option, each piece possibly under other thread counts and timing, ends with exactly the history, optimum, iteration count, constraint values and final state (but for times and counters) of one uninterrupted run. At most the evaluations of the iteration in progress at each crash are repeated.",
     ["crash_points", "schedules", "histories"],
     "every way of cutting a run by crashes, signals or budgets, every schedule of each piece",
     "One existing test compares a single split of one configuration without crash; the state that must survive (random generator, surrogate clusterings, trust region, activity, counters) differs with every option.",
     [EGO+"egor.rs", EGO+"solver/egor_state.rs", EGO+"solver/egor_solver.rs", EGO+"solver/trego.rs", EGO+"utils/hot_start.rs"],
     [("the state serializes everything the next iteration reads", EGO+"solver/egor_state.rs"), ("ExtendedIters adds its number to the iteration limit of the checkpoint", EGO+"utils/hot_start.rs")],
     [("EgorState", "data, rng, surrogates parameters, trego state", EGO+"solver/egor_state.rs")], ["Egor::run result", "calls of the objective"])

prop("C03", "Warm start takes over every evaluation recorded before the crash",
     "When a run with an output directory stops at any instant (end, kill, torn write, power loss), a warm start run in that directory with any compatible settings does not fail and begins with all the evaluations the recorded design held, in order, with their values and constraint values, before adding new points. It does not evaluate these points again and its own files contain the old and the new points.",
     ["crash_points", "histories", "configurations"],
     "every crash point, every pair of settings of the two runs, chains of warm starts",
     "The existing warm start tests restart after a normal end only, with one problem; none has function constraints or a crash.",
     [EGO+"solver/egor_solver.rs", EGO+"egor.rs", EGO+"utils/atomic_file.rs"],
     [("egor_doe.npy replaced atomically each iteration, else egor_initial_doe.npy is read", EGO+"solver/egor_solver.rs")],
     [("egor_doe.npy", "x relaxed, objective and constraints, function constraints", EGO+"egor.rs")], ["Egor::run result", "files of the output directory", "calls of the objective"])

prop("C04", "A seeded run is reproducible whatever the schedule and the environment",
     "With a fixed seed, the sequence of points evaluated and the result (history, optimum, status, final state but for times) are bit for bit the same for any number of threads, interleaving of threads, clock behaviour, operating system entropy, partial or interrupted system calls, log level, parallel or sequential evaluation of the objective, recording options and output location.",
     ["schedules", "configurations"],
     "every schedule of the parallel sections, thread counts 1 to 8, every environment, all optimizer options",
     "The tests run each seeded case once on one machine with tolerances on the result; none controls the scheduler, the entropy or the clock.",
     [EGO+"solver/solver_infill_optim.rs", EGO+"solver/solver_impl.rs", EGO+"utils/portfolio.rs", "crates/gp/src/optimization.rs", "crates/moe/src/clustering.rs", "crates/doe/src/lhs.rs"],
     [("every random draw comes from generators derived from the seed and drawn in an order independent of threads", EGO+"solver/egor_solver.rs"), ("parallel reductions are associative", EGO+"solver/solver_infill_optim.rs")],
     [], ["calls of the objective", "Egor::run result", "output files"])

prop("C05", "The reported optimum is the best point of the whole history",
     "Whenever a run returns (normally, interrupted by SIGINT, after a hot start or a warm start), its optimum is one of the points of its history with the value the objective gave, and no other point of the history is better: feasible points (all constraints within tolerance) are preferred, the smallest objective wins among them, the smallest constraint violation otherwise. Along the iterations, and from one run to the run that continues it, the best point never gets worse.",
     ["histories", "crash_points", "schedules", "inputs"],
     "every history of runs and restarts, with and without constraints, every tolerance setting",
     "The tests compare the optimum of a few runs with known values under loose tolerances, so a second best point passes.",
     [EGO+"solver/egor_state.rs", EGO+"utils/find_result.rs", EGO+"solver/egor_solver.rs", EGO+"egor.rs"],
     [("find_best_result_index and its incremental version", EGO+"utils/find_result.rs"), ("EgorState::update", EGO+"solver/egor_state.rs")],
     [("best_index, prev_best_index", "row of the best point", EGO+"solver/egor_state.rs")], ["OptimResult", "egor_history.npy"])

prop("C06", "The history is exactly what was evaluated: nothing lost, invented or altered",
     "The history of a result lists the points the user gave or a former run recorded, then every point handed to the objective by this run, once and in evaluation order, with exactly the values the objective returned; function constraint values belong to their row. No row is invented, lost, duplicated, reordered or changed by mixed-integer relaxation, crash, restart or interruption (a TREGO local step may leave out a point it evaluated when it is too close to known ones).",
     ["histories", "crash_points", "inputs", "schedules"],
     "every history of runs, restarts and interruptions; continuous and mixed-integer spaces; sequential and batched evaluation",
     "The tests look at the optimum and the number of rows; none records the calls of the objective and compares them with the history row by row.",
     [EGO+"solver/solver_impl.rs", EGO+"solver/egor_solver.rs", EGO+"solver/egor_state.rs", EGO+"gpmix/mixint.rs", EGO+"utils/misc.rs", EGO+"solver/trego.rs"],
     [("update_data appends evaluated points", EGO+"utils/misc.rs"), ("fold / unfold between user and relaxed spaces", EGO+"gpmix/mixint.rs")],
     [], ["OptimResult x_doe, y_doe", "EgorState data and cdata", "calls of the objective"])

prop("C07", "User functions only see points of the declared domain",
     "Every point handed to the objective and to the function constraints, and every point of the result, has one component per declared variable, within bounds; integer variables take integer values, ordered variables one of their listed values, categorical variables the index of a category. The relaxed points of the state stay within the relaxed bounds.",
     ["inputs", "schedules", "histories", "configurations"],
     "every domain, option and schedule, every iteration of every run and restart",
     "The tests check the final optimum of a handful of mixed-integer problems, not each call.",
     [EGO+"gpmix/mixint.rs", EGO+"solver/solver_infill_optim.rs", EGO+"solver/trego.rs", EGO+"solver/coego.rs", EGO+"optimizers/optimizer.rs", EGO+"criteria/"],
     [("cast_to_discrete_values then fold before each call", EGO+"gpmix/mixint.rs"), ("bounds of the inner optimizers", EGO+"optimizers/optimizer.rs")],
     [], ["calls of the objective and constraints", "OptimResult"])

prop("C08", "Every run terminates within its budget and says why",
     "A run makes exactly one evaluation of the initial design (none when it is given or restored) and at most one batch of at most q points per iteration, ends after at most the configured number of iterations with a status that is true: iteration limit reached means all iterations were done, target reached means the optimum is at or below the target, and no evaluation follows the target being reached. Under every fair schedule and thread count it ends within a bounded number of steps without deadlock.",
     ["schedules", "histories", "configurations"],
     "every schedule, thread count, budget, target, batch size and restart",
     "Tests check the total number of points in a few runs on one schedule; deadlocks and accounting across restarts need schedules and histories they do not produce.",
     [EGO+"solver/egor_solver.rs", EGO+"solver/solver_impl.rs", EGO+"egor.rs", EGO+"utils/hot_start.rs"],
     [("max_iters, target_cost and SolverConverged termination", EGO+"solver/egor_solver.rs")],
     [("iter, max_iters, termination_status", "budget accounting", EGO+"solver/egor_state.rs")], ["calls of the objective", "EgorState"])

prop("C09", "SIGINT stops a run cleanly at any instant",
     "A SIGINT delivered once or several times at any instant of a running optimization never makes it fail, hang or lose work: it returns a result whose history is a prefix of the history of the uninterrupted run, with the best point of that prefix, after at most the iteration in progress, and its status tells the interruption unless the run was already complete. With hot start, running again completes it to the same result as the uninterrupted run.",
     ["schedules", "crash_points"],
     "every instant of delivery (each synchronisation, system call, log line, objective call), every interleaving of the signal handling thread",
     "No test sends a signal.",
     [EGO+"egor.rs", EGO+"solver/egor_solver.rs"],
     [("argmin ctrlc handler and interrupt flag tested before each iteration", EGO+"egor.rs")],
     [], ["Egor::run result", "checkpoint", "calls of the objective"])

prop("C17", "The files of the output directory agree with the result",
     "When a run with an output directory returns, the recorded design holds exactly the rows of the history (relaxed points, objective, constraints and function constraints), the initial design file its initial part, the history file one row of the best point per iteration of the run with the optimum last, the configuration file the configuration of the run, and, when enabled, the run file all points, and the surrogates files one surrogate per output, trained with the first rows of the history. Every file is complete and readable, also under partial and interrupted writes.",
     ["histories", "fault_sequences", "configurations"],
     "every run, restart and interruption, every option, short and interrupted writes at any system call",
     "The tests check that the files exist or load the design once after a normal end; none compares their content with the result or fails a write part way.",
     [EGO+"egor.rs", EGO+"solver/egor_solver.rs", EGO+"utils/run_recorder.rs", EGO+"utils/atomic_file.rs"],
     [("observer writes the design and the history each iteration", EGO+"egor.rs"), ("run recorder", EGO+"utils/run_recorder.rs")],
     [("egor_doe.npy, egor_initial_doe.npy, egor_history.npy, egor_config.json, egor_run.json", "recorded run", EGO+"lib.rs")], ["files of the output directory", "OptimResult"])

exec(open(os.path.join(V, "tools/more_props.py")).read()) if os.path.exists(os.path.join(V, "tools/more_props.py")) else None

NA = "pure function of its input: no schedule, clock, fault, crash or interleaving takes part, so there is nothing for a simulator to decide (see /root/guide.md); "
prop("P01", "A Gaussian process without noise interpolates its training points",
     "Predictions of a trained noiseless Gaussian process at its training inputs equal the training outputs and its predicted variance is zero there, up to the nugget.",
     ["inputs"], "every training set and kernel", "Tests sample a few functions.", ["crates/gp/src/algorithm.rs"], [("predict, predict_var", "crates/gp/src/algorithm.rs")], na=NA+"property based or numerical testing decides it")
prop("P02", "Analytic derivatives agree with the functions they differentiate",
     "The gradients of predictions, variances and infill criteria equal the derivatives of the corresponding values wherever these are differentiable.",
     ["inputs"], "every model and point", "Tests compare a few points with finite differences.", ["crates/gp/src/algorithm.rs", "crates/ego/src/criteria/"], [("predict_gradients, predict_var_gradients, criteria grad", "crates/gp/src/algorithm.rs")], na=NA+"numerical differentiation tests decide it")
prop("P03", "Infill criteria implement their definitions",
     "Expected improvement, its logarithm, WB2 and WB2S take the values of their published definitions for every prediction, variance and current best.",
     ["inputs"], "every prediction and variance", "Tests sample values.", ["crates/ego/src/criteria/"], [("value", "crates/ego/src/criteria/")], na=NA+"reference formula testing decides it")
prop("P04", "The Python module behaves as the Rust library",
     "The classes and functions of the Python module validate their arguments and give the results of the Rust library they wrap.",
     ["inputs"], "every call", "Python tests sample calls.", ["python/src/"], [("PyO3 bindings", "python/src/")], na="the bindings need CPython, its memory management and its global interpreter lock, which cannot be put behind the seams of this in-process simulator; what they add to the Rust library is argument conversion, a pure function of its input")
prop("P05", "Mixture of experts weights form a partition of unity",
     "The probabilities of the experts of a mixture sum to one at every point and the smooth prediction is the weighted sum of the experts' predictions.",
     ["inputs"], "every model and point", "Tests sample points.", ["crates/moe/src/algorithm.rs", "crates/moe/src/gaussian_mixture.rs"], [("predict_probas", "crates/moe/src/gaussian_mixture.rs")], na=NA+"property based testing decides it")

TECH = "deterministic simulation with fault injection (seeded search)"
NOTE = "Seeded search over simulated runs of the real code: a quiet run is evidence, not proof. Trusts the simulated kernel (files, clock, entropy, futex), the rayon-core shim and the reference model in dst/src."
with open(V+"/properties.jsonl", "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d)+"\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hook was needed in /repo: the simulator interposes libc symbols, the allocator and the rayon-core and foldhash crates", "source_commits": []},
     "checks": [{"property": d["id"], "quick_cmd": f"bash check.sh {d['id']} quick", "thorough_cmd": f"bash check.sh {d['id']} thorough",
                 "technique": TECH, "level": "exploration", "level_note": (n+" " if n else "")+NOTE} for d, na, n in P if not na],
     "not_applicable": [{"property": d["id"], "reason": na} for d, na, n in P if na]}
json.dump(m, open(V+"/MANIFEST.json", "w"), indent=1)
