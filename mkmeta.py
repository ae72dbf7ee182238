#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (committed; run after editing)"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
HOOKS = ["e7e64a61475bd2827788536341e941aec235db8f", "552197b4fdb0db9baf9acc84360e59a3081dc3cb",
         "1138837055b83d838f2a64932fcf4b620b40763c"]
S = "sqpdfo/"
T0 = "The suite runs about 35 fixed problems with well-behaved functions, no noise, no failures and one run per process"


def p(id, title, statement, over, text, why, files, mech, observe, hook=None, level_note=""):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": [S + f for f in files],
                        "mechanism": [{"name": a, "where": S + b} for a, b in mech],
                        "observe_at": observe, "hook_needed": hook}, "_note": level_note}


INP = ["inputs", "configurations", "fault_sequences"]
P = [
 p("C01", "Every accepted run ends, never raises, and says why",
   "For every admissible problem and option set, and whatever the user's functions do (raise any ordinary error, return nan, "
   "infinite or huge values, answer noisily), an optimization ends within its budgets, raises nothing and returns a documented "
   "exit status. The returned point is a finite vector of the right length, and unless an evaluation failed the value and the "
   "multipliers are finite.",
   INP, "all problems (1-7 variables, bounds of every kind, equality/inequality constraints, all model/Hessian/degree options, "
   "verbosities), all sequences of failing and noisy evaluations",
   T0 + "; failing evaluations appear in one test, degenerate sets, rank-deficient constraints and infinite bounds in none.",
   ["sqpdfo.py", "sqpdfo_main.py", "sqpdfo_prelim.py", "sqpdfo_evalfgh.py", "sqpdfo_augmX_evalf.py", "sqpdfo_solve_TR_bc.py"],
   [("status codes and early returns", "sqpdfo_main.py:sqpdfo_main_"), ("caught evaluation errors", "sqpdfo_evalfgh.py:sqpdfo_evalfgh_"),
    ("degenerate set repair", "bcdfo_repair_Y.py")], ["return value of optimize", "exceptions", "simulated clock"]),
 p("C02", "Exact account of what the black box was asked",
   "The functions are only ever called with finite points of the right dimension, the constraints (if any) exactly once per "
   "objective evaluation and at exactly the same point, and not at all if the problem has none. The number of evaluations "
   "reported equals the number made, on every way a run can end, and nothing is called after the run has returned.",
   INP, "all problems and options, every way of ending, functions that fail or modify their argument",
   T0 + " and compare final answers; no test counts calls.",
   ["sqpdfo_augmX_evalf.py", "sqpdfo_evalfgh.py", "sqpdfo_main.py", "sqpdfo_prelim.py"],
   [("evaluation counter", "sqpdfo_augmX_evalf.py"), ("objective and constraint called on the same list", "sqpdfo_evalfgh.py")],
   ["call ledger of the simulated black box", "info.nsimul"]),
 p("C03", "The answer is one real evaluation of the black box",
   "The returned point is a point at which the functions were evaluated, and the returned objective and constraint values are "
   "together what the functions answered in one evaluation there. This holds for noisy functions, infinite constraint values, "
   "outliers and every way of ending; nothing is extrapolated, mixed from two evaluations or taken from a rejected trial point.",
   INP, "all problems, noise levels, outliers, infinite values, failing evaluations, budgets",
   T0 + "; without noise any two evaluations of a point agree, so mixed answers are invisible.",
   ["sqpdfo_main.py", "sqpdfo_find_smallf.py", "sqpdfo_swap_in_Y.py", "sqpdfo_augmX_evalf.py", "sqpdfo_finish.py"],
   [("best point bookkeeping", "sqpdfo_main.py:i_xbest"), ("replacement in the set", "sqpdfo_find_smallf.py")],
   ["call ledger", "x, info.f, info.ce"]),
 p("C04", "A failing evaluation stops the run cleanly at the point reached",
   "If an evaluation fails (an error, nan or infinite objective, nan constraint), the evaluations before it are those of the "
   "run without the failure, no further evaluation is made, and the exit status says that an evaluation failed. The answer is "
   "a successfully evaluated point with its values, and for problems without constraints no worse than the start.",
   ["inputs", "crash_points", "fault_sequences"], "every evaluation of every run, every kind of failure",
   "The suite has one failing objective at one call; here any of the evaluations of any run fails in any way.",
   ["sqpdfo_evalfgh.py", "sqpdfo_augmX_evalf.py", "sqpdfo_main.py", "sqpdfo_swap_in_Y.py", "sqpdfo_prelim.py"],
   [("flag and message of a failed evaluation", "sqpdfo_evalfgh.py"), ("return at a failed evaluation", "sqpdfo_main.py")],
   ["call ledger against a reference run", "flag, x, f, c"]),
 p("C05", "Success is only claimed where the tolerances hold",
   "When a run claims success, the violation of the constraints the black box really answered at the returned point is within "
   "the (documented factor of the) feasibility tolerance, the reported infeasibility is not smaller than it, the reported "
   "gradient measure is within the optimality tolerance, and the point is within the bounds.",
   INP, "feasible, infeasible, degenerate and noisy problems, all tolerances",
   T0 + " on feasible problems that converge.",
   ["sqpdfo_main.py", "sqpdfo_optimality.py", "sqpdfo_finish.py"],
   [("convergence test", "sqpdfo_main.py:Stop on convergence"), ("measures", "sqpdfo_optimality.py")], ["ledger", "info"]),
 p("C06", "The answer respects the bounds, however the run ends",
   "Whatever the bounds (boxes, one-sided, tight, starts on or outside them) and however the run ends, including by a failing "
   "evaluation, the returned point, the starting point used and all points of the first interpolation set lie within the bounds. A variable whose bounds coincide has "
   "that value in every evaluation and in the answer.",
   INP, "all bounded problems, starts and failures", T0 + "; a handful have bounds and none has fixed variables.",
   ["sqpdfo_prelim.py", "sqpdfo_main.py", "sqpdfo_solve_TR_bc.py", "bcdfo_solve_TR_MS_bc.py", "sqpdfo_finish.py"],
   [("start moved inside", "sqpdfo_prelim.py"), ("fixed variables", "sqpdfo_augmX_evalf.py")], ["x", "ledger"]),
 p("C07", "Without constraints, progress is never lost",
   "For problems without nonlinear constraints the returned value is never worse than the start's nor than any value the "
   "history reports, and the values in the history never rise, also with noise, outliers, failures and exhausted budgets.",
   ["inputs", "fault_sequences", "histories"], "all such problems, noise, failures and budgets",
   T0 + "; monotonicity is not tested.", ["sqpdfo_main.py", "sqpdfo_find_smallf.py"],
   [("acceptance test", "sqpdfo_main.py"), ("better points taken over", "sqpdfo_find_smallf.py")], ["history file", "info.f"]),
 p("C08", "A budget only cuts a run short, and is kept",
   "A run with a smaller iteration or evaluation budget makes exactly the first evaluations of the run with the larger one and "
   "stops for the budget only when it is used up. An iteration that starts with a budget used up evaluates nothing; the "
   "evaluation budget is overrun by less than one iteration's worth of points and the iteration budget by at most one.",
   ["inputs", "configurations", "crash_points"], "all budgets of all runs", "The suite never compares two budgets.",
   ["sqpdfo_main.py"], [("counter checks", "sqpdfo_main.py:Stop on counter")], ["ledgers of two runs"]),
 p("C09", "A run does not depend on what the process did before",
   "After any sequence of runs in the same process, successful, failed, refused, interrupted at an arbitrary moment or hit by "
   "I/O and linear algebra failures, a run makes the same evaluations and returns the same result as in a fresh process.",
   ["histories", "fault_sequences", "crash_points"], "all sessions of up to six operations before the run",
   "Each test is one run; state left in module globals by failed runs is never looked at by a second.",
   ["sqpdfo_global_variables.py", "sqpdfo.py", "sqpdfo_prelim.py"],
   [("run state saved and restored", "sqpdfo.py:sqpdfo_"), ("globals", "sqpdfo_global_variables.py")], ["second run against fresh process"]),
 p("C10", "Runs may be nested inside the functions of other runs",
   "An objective or constraint function may itself call the optimizer (also one that fails, is refused or is interrupted): "
   "the outer and the inner runs evaluate and return exactly what they do alone.",
   ["histories", "schedules", "programs"], "all placements of inner runs in the evaluations of outer runs, two levels deep",
   "No test nests runs.", ["sqpdfo_global_variables.py", "sqpdfo.py"],
   [("run state saved and restored", "sqpdfo.py:sqpdfo_")], ["ledgers and results of inner and outer runs"]),
 p("C11", "Runs in different threads do not influence each other",
   "Several optimizations running in different threads of one process, interleaved in any way, each evaluate and return exactly "
   "what they do alone.",
   ["schedules"], "all interleavings (at source-line granularity) of two to four runs", "No test uses threads.",
   ["sqpdfo_global_variables.py", "sqpdfo_evalfgh.py"],
   [("per-thread run state", "sqpdfo_global_variables.py")], ["each run against itself alone"]),
 p("C12", "The caller's data stay the caller's",
   "The starting point, bounds and options passed in are not modified, by runs that end in any way, and a result is not changed "
   "by later runs; the same objects can be used again with the same effect. Functions may modify their argument and return "
   "reused buffers, and arrays may be read-only or strided, without any effect on the run.",
   ["inputs", "histories", "fault_sequences"], "all argument shapes, function styles, ways of ending",
   "No test looks at its arguments after a run.", ["sqpdfo.py", "sqpdfo_prelim.py", "sqpdfo_options.py", "sqpdfo_evalfgh.py"],
   [("copies of arguments", "sqpdfo.py:sqpdfo_run_"), ("copies handed to functions", "sqpdfo_evalfgh.py")], ["bytes of the arguments"]),
 p("C13", "Trouble with the history file or the terminal never changes the result",
   "If opening, writing or closing the history file fails, once or from some point on (no permission, no handles, full disk, I/O "
   "error, partial writes), the run makes the same evaluations and returns the same result and leaves no file open. A terminal "
   "error is either survived without effect or passed to the caller as it is, with no further evaluation.",
   ["fault_sequences", "crash_points"], "every file and terminal operation of a run failing in every way",
   "No test makes a file operation fail.", ["runtime.py", "sqpdfo_iter_printout.py", "sqpdfo_main.py", "sqpdfo_finish.py"],
   [("guarded output", "runtime.py:fprintf_/fopen_/fclose_")], ["result against fault-free run", "simulated file system"]),
 p("C14", "The history file is complete and readable at every instant",
   "At every instant at which the process could be killed the history file is a readable beginning of the final file and holds "
   "every row due so far; rows count evaluations and iterations truthfully and in order with objective values really seen, and "
   "the last row belongs to the returned answer. When the run returns, in whatever way, the file is complete and closed and "
   "replaces any older one; no other file is written.",
   ["crash_points", "histories", "fault_sequences"], "every instant of every run", "No test reads the history file.",
   ["sqpdfo_iter_printout.py", "sqpdfo_main.py", "sqpdfo_finish.py", "sqpdfo_prelim.py", "runtime.py"],
   [("row appended and closed per iteration", "sqpdfo_iter_printout.py")], ["durable contents of the simulated file"]),
 p("C15", "Verbosity changes what is printed, nothing else",
   "Runs that differ only in the verbosity level (0 to 6, not given, or a level that does not exist) make the same evaluations and return the same result, "
   "and no level makes a run fail.",
   INP, "all levels on all problems and failures", "Tests use one or two levels and never compare.",
   ["sqpdfo_main.py", "sqpdfo_finish.py", "sqpdfo_iter_printout.py", "sqpdfo_solve_TR_bc.py"],
   [("printing code", "sqpdfo_main.py")], ["ledgers and results"]),
 p("C16", "A run is a function of its arguments and the answers it gets",
   "Evaluations, result, output and history do not depend on ambient state: random generators, clock, process id, memory "
   "layout, garbage collection, hash seed, thread, call depth, warning settings or working directory.",
   ["configurations", "schedules"], "all such surroundings", "Tests compare with tolerances inside one environment.",
   ["sqpdfo_prelim.py", "bcdfo_repair_Y.py", "runtime.py"],
   [("deterministic initial set", "sqpdfo_prelim.py")], ["everything observable, bit by bit"]),
 p("C17", "Interrupts and memory failures inside a run are never lost",
   "A keyboard interrupt, at any moment of a run, ends the run and reaches the caller; a shortage of memory reaches the caller "
   "or is reported as a failed evaluation; neither is turned into a wrong answer or another kind of error. Linear algebra "
   "failures surface as such or have no effect.",
   ["crash_points", "fault_sequences"], "every executed source line of every run as the moment of delivery",
   "No test interrupts a run.", ["sqpdfo_evalfgh.py", "runtime.py", "sqpdfo.py", "bcdfo_solve_TR_MS_bc.py"],
   [("narrow except clauses", "sqpdfo_evalfgh.py")], ["exception at the caller", "evaluations after delivery"]),
 p("C18", "A refused call asks nothing and changes nothing",
   "A call with an invalid argument or option is refused with the documented status without a single evaluation or file "
   "operation, and the next run behaves as in a fresh process.",
   ["inputs", "histories"], "22 kinds of invalid calls at any place in a session",
   "Tests check two or three refusals and never run anything after them.", ["sqpdfo.py", "sqpdfo_prelim.py", "sqpdfo_options.py"],
   [("argument checks", "sqpdfo_prelim.py"), ("option checks", "sqpdfo_options.py")], ["flag", "ledger", "simulated files", "next run"]),
 p("C19", "Models are built only from what the black box really answered",
   "At every iteration every interpolation point is an evaluated point and carries the values the functions answered there, and "
   "the current iterate carries values of one evaluation at it, through every repair, swap, replacement and outlier.",
   ["histories", "fault_sequences", "inputs"], "every iteration of every run",
   "Internal sets are only tested by single calls of the helper functions with fixed data.",
   ["sqpdfo_main.py", "sqpdfo_swap_in_Y.py", "sqpdfo_augmX_evalf.py", "bcdfo_repair_Y.py", "bcdfo_include_in_Y.py"],
   [("set update", "sqpdfo_main.py"), ("swaps", "sqpdfo_swap_in_Y.py")], ["observation hook at the top of the main loop"],
   "top of the main loop (simhooks, SQPDFO_SIM_HOOKS=1)"),
 p("C20", "A run leaves the process as it found it",
   "Warning filters, numpy error handling and print options, random states, working directory, environment, signal handlers, "
   "threads, streams and open files are the same after a run as before it, however it ends, and also as seen from inside the "
   "user's functions.",
   ["fault_sequences", "crash_points", "configurations"], "all ways of ending, customised process state",
   "No test looks at process state.", ["helper.py", "runtime.py", "sqpdfo.py"],
   [("local warning filters", "runtime.py:min_")], ["process state snapshots"]),
 p("C21", "The models in use fit the data in use, whatever happened before",
   "At every iteration the objective and constraint models reproduce the values at the interpolation points (regression models: "
   "are the least-squares fit), within what the condition of the set allows, after any sequence of steps, repairs, noise and "
   "outliers.",
   ["histories", "fault_sequences", "inputs"], "every iteration of every run",
   "Model building is tested on single fixed sets; staleness after sequences of updates is not.",
   ["bcdfo_computeP.py", "bcdfo_build_QR_of_Y.py", "bcdfo_evalZ.py", "sqpdfo_main.py"],
   [("factorisation update", "bcdfo_build_QR_of_Y.py"), ("model from factorisation", "bcdfo_computeP.py")],
   ["observation hook at the top of the main loop"], "top of the main loop (simhooks, SQPDFO_SIM_HOOKS=1)"),
 p("C22", "Once trouble stops, convex problems are solved in bounded time",
   "A strictly convex quadratic in up to seven variables is solved within a bounded number of evaluations (at most 500) under the "
   "default tolerances: without active bounds even if up to four of the first evaluations were outliers; with bounds of every kind, with linear "
   "equations, with both, or with BFGS Hessians (up to four variables), when the evaluations are clean; also while the history file "
   "cannot be written. It reports convergence, and the returned point is what it claims: the projected gradient of the true function "
   "vanishes there (to 1e-3; for minimum l2-norm models to 0.5).",
   ["fault_sequences", "inputs"], "all such problems, positions of outliers and file trouble",
   "The suite solves fixed clean problems.", ["sqpdfo_main.py", "bcdfo_repair_Y.py", "sqpdfo_find_smallf.py", "bcdfo_solve_TR_MS_bc.py"],
   [("radius management and set repair", "sqpdfo_main.py")], ["flag", "x", "number of evaluations"]),
 p("C23", "Reported measures and printed report belong to the returned answer",
   "However a run ends, the reported infeasibility is not smaller than (without inequalities: is) that of the returned constraint values, the reported gradient norm is the "
   "norm of the reported Lagrangian gradient, and this is the sum of gradient, bound multipliers and constraint Jacobian "
   "times multipliers that are returned with it. The printed final report gives the same status, value, measures and counts.",
   INP, "every way a run can end", "Tests compare x and multipliers on converged runs only.",
   ["sqpdfo_main.py", "sqpdfo_optimality.py", "sqpdfo_compute_multiplier.py", "sqpdfo_finish.py"],
   [("measures", "sqpdfo_optimality.py"), ("report", "sqpdfo_finish.py")], ["info, lm", "terminal"]),
 p("C24", "How a problem is written down does not change the run",
   "The starting point as row, column, flat array, tuple or list, bounds as lists, tuples, rows, columns, flat or transposed "
   "arrays, options as an instance, a class, an inherited class or a namespace, option strings in other case and "
   "spacing, options left out or given with their default, limits of constraints written as constraints, missing or infinite bounds, and fixed variables or functions with "
   "their values put in give the same evaluations and the same answer.",
   ["inputs", "configurations", "fault_sequences"], "all problems, all equivalent writings, noise and failures",
   "Each test writes its problem in one way.", ["sqpdfo.py", "sqpdfo_options.py", "sqpdfo_prelim.py"],
   [("argument conversion", "sqpdfo.py:sqpdfo_run_"), ("defaults", "sqpdfo_options.py")], ["ledgers and results of both writings"]),
 p("C25", "Derivatives in use are those of the models in use",
   "At every iteration the gradient and the constraint Jacobian in use are those of the current models at the current iterate, "
   "and the Hessian in use is finite and symmetric and, with model Hessians, that of the objective model plus a combination of "
   "those of the constraint models, and with BFGS Hessians positive definite, after any sequence of steps, repairs, model changes, noise and outliers.",
   ["histories", "fault_sequences", "inputs"], "every iteration of every run",
   "The derivative helpers are tested on single polynomials; whether the loop refreshes them after every change of the models is not.",
   ["sqpdfo_main.py", "bcdfo_gradP.py", "bcdfo_hessP.py", "sqpdfo_computeHessian.py"],
   [("gradients after a change of the set", "sqpdfo_main.py"), ("Hessian of the Lagrangian", "sqpdfo_computeHessian.py")],
   ["observation hook at the top of the main loop"], "top of the main loop (simhooks, SQPDFO_SIM_HOOKS=1)"),
 p("C26", "The multipliers returned are the best ones for the returned derivatives",
   "However a run without inequalities ends (solved, budget or radius exhausted; any noise and outliers before), the multipliers returned minimise the "
   "norm of the Lagrangian gradient for the gradient and Jacobian returned with them, among those with the right signs: zero for bounds that are not "
   "active at the returned point, not positive at lower and not negative at upper bounds, free for equations.",
   INP, "all ends of all problems with independent constraint gradients, without inequalities", "Fixed examples of the helper, with no multiplier at its sign limit.",
   ["sqpdfo_compute_multiplier.py", "blls.py", "sqpdfo_main.py", "sqpdfo_finish.py"],
   [("bounded least squares", "sqpdfo_compute_multiplier.py"), ("multipliers of the final iterate", "sqpdfo_main.py")], ["lm", "info.g, info.ae", "x"]),
 p("C27", "Trial steps stay in the trust region and the bounds and promise progress",
   "Every trial step, whatever noise, outliers and rejected steps came before, keeps the point within the bounds and is no longer "
   "than the trust-region radius (twice the radius with constraints: restoration and tangential part). Where no bound is within reach, "
   "it minimises the model over the trust region (unconstrained) or does not increase the linearised equations, satisfies them if a short step can, and "
   "along them does as well as a steepest descent step.",
   ["histories", "fault_sequences", "inputs"], "every trial step of every run", "The solvers are tested on single examples; which radius, bounds, models they get along a run is not.",
   ["sqpdfo_main.py", "sqpdfo_solve_TR_bc.py", "bcdfo_solve_TR_MS_bc.py", "bcdfo_solve_TR_MS.py", "sqpdfo_truncated_cg.py"],
   [("step computation", "sqpdfo_solve_TR_bc.py"), ("More-Sorensen within bounds", "bcdfo_solve_TR_MS_bc.py")],
   ["observation hook at each trial step"], "each trial step (simhooks, SQPDFO_SIM_HOOKS=1)"),
]
NA = [
 p("C90", "Trust-region subproblem solvers return accurate minimizers",
   "For every model, radius and bounds, the subproblem solvers return a feasible step with the model decrease they report and "
   "at least that of the Cauchy step.", ["inputs"], "all models, radii and bounds",
   "Fixed examples only.", ["bcdfo_solve_TR_MS.py", "bcdfo_solve_TR_MS_bc.py", "minq.py", "sqpdfo_truncated_cg.py"],
   [("More-Sorensen iteration", "bcdfo_solve_TR_MS.py")], ["return values"]),
 p("C91", "Polynomial algebra is exact",
   "Evaluation, gradient and Hessian of a model are those of the same polynomial for every basis size and shift.", ["inputs"],
   "all polynomials and points", "Fixed examples only.",
   ["bcdfo_evalP.py", "bcdfo_gradP.py", "bcdfo_hessP.py", "bcdfo_evalZ.py"], [("monomial ordering", "bcdfo_evalZ.py")], ["return values"]),
 p("C93", "Hessian approximations are symmetric and curvature-consistent",
   "The BFGS update keeps the matrix symmetric positive definite and satisfies the (damped) secant equation for every pair of "
   "step and gradient change.", ["inputs"], "all pairs", "Fixed examples only.",
   ["sqpdfo_bfgs_update.py", "sqpdfo_check_convex.py", "sqpdfo_computeHessian.py"], [("damped update", "sqpdfo_bfgs_update.py")], ["return values"]),
]
NA_REASON = {
 "C90": "pure function of its input: no schedule, clock, fault or history enters; input generation alone would not be simulation "
        "(the steps a run really takes, in the states a run reaches, are C27)",
 "C91": "pure function of its input; the use of these polynomials along a run's history is C21",
 "C93": "pure function of its input; the Hessians a run really uses are C25",
}
TECH = {"C09": "over session histories", "C10": "over nestings", "C11": "over thread schedules", "C14": "over crash points",
        "C17": "over delivery points", "C13": "over file and terminal faults", "C16": "over surroundings",
        "C08": "over budgets", "C04": "over failure points"}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for q in P + NA:
            fh.write(json.dumps({k: v for k, v in q.items() if k != "_note"}) + "\n")
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --list",
         "hooks": {"guard": "SQPDFO_SIM_HOOKS",
                   "enable": "check.py sets SQPDFO_SIM_HOOKS=1 before it imports the package from /repo's working tree",
                   "source_commits": HOOKS},
         "checks": [{"property": q["id"],
                     "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % q["id"],
                     "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % q["id"],
                     "technique": "deterministic simulation with fault injection, seeded search " + TECH.get(q["id"], "over problems and fault sequences"),
                     "level": "exploration",
                     "level_note": "Sampled: every explored scenario is decided exactly (against the black box's own ledger, a "
                                   "reference run or an independent recomputation), unexplored ones are not. Real package and real "
                                   "numpy/LAPACK run; functions, files, terminal, clocks, random numbers, interrupts and thread "
                                   "switches are simulated."} for q in P],
         "not_applicable": [{"property": q["id"], "reason": NA_REASON[q["id"]]} for q in NA]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    for q in P + NA:
        assert len(q["title"]) <= 80, q["id"]
        for f in q["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), f


main()
