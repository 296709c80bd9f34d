"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLF = ["extensisq/common.py", "extensisq/bogacki.py", "extensisq/calvo.py",
        "extensisq/cash.py", "extensisq/fine.py", "extensisq/hosea.py",
        "extensisq/kennedy.py", "extensisq/kvaerno.py",
        "extensisq/merson.py", "extensisq/mikkawy.py", "extensisq/murua.py",
        "extensisq/prince.py", "extensisq/shampine.py",
        "extensisq/sommeijer.py", "extensisq/tsitouras.py"]
STEPS = [{"name": "the step loops of the explicit, CKdisc, BS5, CFMR7osc, "
          "implicit, multistep and stabilised methods",
          "where": "_step_impl in common.py, cash.py, bogacki.py, calvo.py, "
          "shampine.py, sommeijer.py"}]
OBS = ["solver.step(), t, y, status and the callbacks of the user",
       "scipy.integrate.solve_ivp(..., method=<solver class>)"]
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, note,
         state=None, observe=None):
    a = {"files": files, "mechanism": mechanism,
         "observe_at": observe or OBS, "hook_needed": None}
    if state:
        a["state"] = state
    P.append(({"id": pid, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, note))


prop("C01", "Solvers in one process do not influence each other",
     "The history of a solver (every accepted state, every answer of its "
     "interpolants, every call it makes and its work counters) depends only on "
     "its own arguments and callbacks. It is the same whether it runs alone "
     "or together with any number of other solvers of the same or other "
     "methods in one process, in any interleaving, including solvers that "
     "run inside a callback of another one, that fail, that raise or that "
     "are abandoned.",
     ["schedules", "configurations", "histories", "fault_sequences"],
     "all interleavings (between steps, at callbacks, at any line of the "
     "library) of any set of solvers that may share argument objects",
     "The tests run one solver at a time in a fixed order; state left in "
     "classes, modules, default arguments or shared work arrays shows only "
     "for particular combinations and orders.",
     ALLF, [{"name": "coefficients are class attributes shared by all "
             "instances", "where": "class bodies of all methods"},
            {"name": "work arrays are attributes of the instance",
             "where": "__init__ of all solvers"},
            {"name": "module level counters", "where": "NFS, NFI, NLS"}],
     "Seeded schedules of 2 to 4 solvers down to line granularity, compared "
     "bit by bit with solo runs in pristine processes. The documented global "
     "counters NFS/NFI/NLS are not compared.",
     [{"name": "class attributes", "meaning": "method coefficients",
       "where": "every solver class"}])

prop("C02", "Arrays on both sides of the interface are never changed afterwards",
     "Arrays given to a solver (initial values, tolerances, mass matrix, "
     "Jacobian, and everything a callback returns) are never modified, and "
     "may be read-only, shared, the callback's own argument, or plain lists. "
     "States, derivatives and interpolants that were handed out keep their "
     "values for ever, whatever happens later, and results do not depend on "
     "such aliasing.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "all aliasing patterns of inputs, answers and outputs, over whole runs "
     "with rejections, failures and exceptions",
     "Tests use callbacks that return fresh arrays and look at final values; "
     "in-place work on an aliased array shows only when the alias exists and "
     "is looked at later.",
     ALLF, [{"name": "copies at the interface and rebinding instead of "
             "in-place updates", "where": "__init__ and _step_impl of all "
             "solvers; dense output classes"}],
     "Twin runs with fresh and with aliasing arrays must be identical and all "
     "arrays that crossed the interface are compared with snapshots.")

prop("C03", "Time is monotone, inside the interval, and ends exactly at its end",
     "Each successful step moves time strictly in the direction of "
     "integration, the end of one step is the start of the next, time never "
     "passes the end point, and a finished integration is exactly at it. The "
     "right hand side and Jacobian are only evaluated inside the interval "
     "(with the small, documented exception of one method that has a node "
     "at 26/25 of its step).",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all methods, intervals (long, tiny, across or far from zero), "
     "directions, and sequences of rejected, failed and aborted steps",
     "Tests integrate a few fixed intervals; rounding in the last steps and "
     "rejections next to the end depend on the interval and the history.",
     ALLF, STEPS + [
         {"name": "steps are stretched or clipped to end at the end",
          "where": "_reassess_stepsize, h_start in common.py; "
          "_init_step_size in sommeijer.py"}],
     "Swarm over methods, intervals, tolerances and faults; every callback "
     "time and every accepted time is an invariant check.")

prop("C04", "max_step and first_step are respected",
     "No accepted step and no trial step is larger than the maximum step size "
     "of the user (not the first one, not the last one, not after failures), "
     "and a first step size that is given is the size of the first trial. "
     "The only deviation is a stretch of at most 10 percent of a given first "
     "step that makes it end at the end of the interval.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all methods, limits and intervals, with sequences of faults that change "
     "the step size",
     "Tests check the largest step of a few smooth runs; the logic for the "
     "last steps, step size increases after a failure and multi-step "
     "interpolation only interact for particular ratios.",
     ALLF, STEPS + [{"name": "step size clipping", "where":
                     "h_start, _reassess_stepsize, next_step in the step "
                     "loops"}],
     "Swarm of limits including exact and nearly exact divisors of the "
     "interval; each accepted step and each trial is checked.")

prop("C05", "Every run ends: finished, failed, or a clean exception",
     "Whatever finite or non-finite values the callbacks return, at whatever "
     "call, for once or for ever, each step does a bounded amount of work and "
     "ends: with an accepted step, a failure with a message, or a documented "
     "exception; an integration never stalls without an end. After a "
     "failure the state is the last accepted one and a further step is "
     "refused.",
     ["fault_sequences", "inputs", "configurations"],
     "all sequences of callback answers, for all methods, directions and "
     "intervals (a relative minimum step is no bound at t=0)",
     "Tests contain two problems that blow up; loops that never end need a "
     "non-finite or inconsistent answer at a particular call.",
     ALLF, [{"name": "minimum step size and failure messages",
             "where": "_init_min_step_parameters, TOO_SMALL_STEP, h_min_a/b "
             "in all step loops"},
            {"name": "bounded power iteration", "where": "sommeijer.py _rho"},
            {"name": "bounded search for initial values",
             "where": "_consistent_ICs"}],
     "Seeded fault sequences with a budget of callbacks per step and a "
     "deterministic budget of executed lines for loops without callbacks.")

prop("C06", "Nothing non-finite or grossly inaccurate is ever accepted",
     "An accepted state is always finite. If the right hand side is only "
     "disturbed in some calls (non-finite answers, glitches), each accepted "
     "step that saw correct answers is as accurate with respect to the exact "
     "solution through its starting point as the tolerance demands, no matter "
     "what was disturbed before: the disturbance costs rejected trials, not "
     "accuracy.",
     ["fault_sequences", "inputs", "histories"],
     "all methods, smooth problems and fault sequences at any call, including "
     "first step selection, Newton iterations, Jacobian differences and "
     "rejected trials",
     "Tests never disturb a callback, so state that survives a rejected trial "
     "(stale derivative, stale LU decomposition, history arrays) is invisible "
     "to them.",
     ALLF, STEPS + [{"name": "error norm and rejection of non-finite trials",
                     "where": "_estimate_error_norm and the comparisons with "
                     "1 in the step loops"}],
     "Every accepted step is compared with the exact local flow; limits were "
     "calibrated on undisturbed runs with a factor of at least 3 to spare.")

prop("C07", "An accepted step is the method's formula and passed its error test",
     "Each accepted solution is the value of the published formula of the "
     "method, applied to the accepted state before it with the step size "
     "that was taken, also after rejections, failures and disturbed calls; "
     "its error estimate, by the published embedded formula in the norm of "
     "the tolerances, is at most one. For the method for discontinuous "
     "problems this includes the choice among its nested formulas and the "
     "length of a shortened step.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "all methods, problems, tolerances, step size sequences and faults",
     "Tests compare final errors with loose limits: a wrong weight in a "
     "rarely used branch, a stale stage or a skipped error test stays within "
     "those limits.",
     ALLF, [{"name": "stages, solution and error estimate",
             "where": "_rk_stage, _comp_sol_err, _estimate_error(_norm) and "
             "their overrides"},
            {"name": "coefficients", "where": "class bodies"},
            {"name": "tolerances", "where": "validate_tol, calculate_scale"}],
     "Refinement check of every accepted step against small reference models "
     "with pinned coefficients, which the selftest verifies against the order "
     "conditions. Multistep and stabilised methods: local error only where "
     "the formula depends on the history.")

prop("C08", "An exception in a callback is passed on and the step can be retried",
     "An exception (also a keyboard interrupt) from a callback leaves the "
     "solver method unchanged and the published time and state exactly those "
     "of the last accepted step, consistent with each other. The step can be "
     "called again, any number of times, and the run then continues and "
     "finishes with the same accuracy; for explicit methods with exactly the "
     "result it would have had without the exception.",
     ["fault_sequences", "crash_points", "histories"],
     "an exception at any callback: construction, any stage, last-stage "
     "evaluation, Jacobian, differences, power iteration, stiffness "
     "detection, dense output; single, repeated, nested",
     "No test raises from a callback; the exposure is one particular call in "
     "the middle of an update of several attributes.",
     ALLF, [{"name": "attributes are only updated after the last evaluation "
             "of a step", "where": "end of _step_impl of all solvers"}],
     "All exception points are drawn from a dry run of the same scenario; "
     "twin comparison with the undisturbed run, local accuracy for implicit "
     "methods.")

prop("C09", "The last accepted state is all that is needed after a crash",
     "If a process dies in any callback, a new solver that starts from the "
     "last accepted time and state continues to the end with the accuracy "
     "of the tolerance. In a process in which other solvers died midway it "
     "behaves exactly as in a new process.",
     ["crash_points", "histories", "fault_sequences"],
     "kill points at any callback (also during restarts), up to five in a "
     "run, with only the accepted state surviving",
     "Tests never abandon a solver; leftovers in class or module state, or a "
     "start that depends on where in the interval it happens, need a crash "
     "and a restart at a particular point.",
     ALLF, [{"name": "initialisation of each solver",
             "where": "__init__ and h_start"}],
     "Seeded kill points; the restarted solver is compared bit by bit with "
     "one in a pristine process and its steps with the exact local flow.")

prop("C10", "Looking at the solution does not change the integration",
     "Asking for interpolants after any steps, evaluating them, overwriting "
     "what they return, output at requested times, and event location have "
     "no effect on the accepted steps, even if an evaluation made for the "
     "interpolant is disturbed or raises. (Excluded: one optional "
     "interpolant that is documented to replace the state.)",
     ["histories", "schedules", "configurations", "fault_sequences"],
     "all methods and interpolants, all subsets of steps that are observed "
     "and all faults in the extra evaluations",
     "Tests use dense output or not, never both for the same run; an "
     "interpolant that shares or overwrites work arrays shows in the next "
     "step only.",
     ALLF, [{"name": "interpolants with extra evaluations",
             "where": "_dense_output_impl in bogacki.py, fine.py, murua.py, "
             "shampine.py and common.py"}],
     "Observed and unobserved runs with the same faults are compared bit by "
     "bit, also through solve_ivp with dense output, t_eval and events.")

prop("C11", "Dense output joins the states and is the published interpolant",
     "The interpolant of a step covers exactly that step, equals the accepted "
     "states at both ends, and in between is the published interpolant of "
     "the method for that step; for scalar and array times, in any order, "
     "whenever it is evaluated, in both directions of integration. This "
     "holds for each step whatever happened before it.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "all methods and interpolant options, steps after rejections, faults "
     "and exceptions, and steps of shortened or varying order",
     "Tests evaluate interpolants of a few smooth runs with loose limits.",
     ALLF, [{"name": "dense output classes", "where": "HornerDenseOutput, "
             "CubicDenseOutput, HornerDenseOutputNystrom, "
             "QuinticHermiteDenseOutput, BackwardHornerDenseOutput, "
             "PiecewiseCubicDenseOutput, SwagDenseOutput, LinearDenseOutput"}],
     "Reference interpolants are built from the accepted state alone with "
     "pinned coefficients. The variable order multistep method is checked "
     "for local accuracy and continuity instead.")

prop("C12", "A poor Jacobian costs work, never accuracy",
     "If the Jacobian of an implicit method is stale, noisy, scaled, or "
     "non-finite (once, for a while, or always), or a Newton iteration meets "
     "a non-finite derivative, the accepted steps still have the accuracy of "
     "the tolerance. The run finishes, fails, or raises a documented linear "
     "algebra error; it never accepts an unconverged stage.",
     ["fault_sequences", "inputs", "configurations"],
     "all implicit methods, linear, nonlinear, mass matrix and "
     "differential-algebraic problems, exact or differenced Jacobians",
     "Tests only use correct Jacobians, for which the convergence test of the "
     "Newton iteration hardly matters.",
     ["extensisq/common.py", "extensisq/hosea.py", "extensisq/kennedy.py",
      "extensisq/kvaerno.py"],
     [{"name": "Newton iteration and its convergence test",
       "where": "_solve_implicit_stage"},
      {"name": "reuse of Jacobian and LU decomposition",
       "where": "_step_impl and _preemptive_lu_and_jac of ESDIRK"}],
     "Local errors against the exact flow with limits that allow for what the "
     "convergence test leaves.")

prop("C13", "Solutions of differential-algebraic problems satisfy the constraint",
     "For index-1 problems each accepted state satisfies the algebraic "
     "equations to the accuracy of the tolerance. Inconsistent initial "
     "values are replaced by consistent ones that keep the differential "
     "variables, or are refused with an error; they are never used silently. "
     "Disturbed callbacks during that search or later do not change this.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "semi-explicit and mixed problems, diagonal, full and sparse singular "
     "mass matrices, consistent and inconsistent starts, fault sequences",
     "Tests have a few problems that start consistently and are never "
     "disturbed.",
     ["extensisq/common.py"],
     [{"name": "search for consistent initial values",
       "where": "_consistent_ICs, _handle_M"},
      {"name": "error estimate with a mass matrix",
       "where": "_estimate_error, calculate_scale"}],
     "Constraint residual and distance to the exact manifold of every "
     "accepted state.")

prop("C14", "The work that is reported is the work that was done",
     "The number of evaluations of right hand side and Jacobian that a solver "
     "reports equals the number of calls that it made, at any moment: after "
     "construction, each step, failed and aborted steps, dense output and "
     "stiffness detection. The number of failed trials equals the number of "
     "trials that were rejected, and a step takes exactly the number of "
     "evaluations that the method is published with.",
     ["histories", "configurations", "fault_sequences"],
     "all methods, options and histories of rejections and faults",
     "Tests compare a few totals; a miscount in a branch that only runs after "
     "a failure is not visible in them.",
     ALLF, [{"name": "counting wrappers",
             "where": "fun wrapper of scipy OdeSolver, nfev/njev/nlu updates "
             "in all solvers, NFS counter"}],
     "Counters are compared with the calls that arrived at the simulated "
     "port.",
     [{"name": "nfev, njev, nlu", "meaning": "work done so far",
       "where": "solver attributes"},
      {"name": "NFS", "meaning": "failed trials", "where": "module level"}])

prop("C15", "The stiffness diagnosis only watches, and is right when it speaks",
     "With or without the diagnosis, for any test interval, the accepted "
     "steps are the same, even if evaluations made for the diagnosis are "
     "disturbed. It never reports stiffness for a problem that is far from "
     "stiff, and does report a clearly stiff problem when it is enabled with "
     "a short interval.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all methods with a diagnosis, test intervals, problems and disturbed "
     "evaluations",
     "Tests check the message for one problem; the diagnosis shares counters "
     "and work arrays with the step loop.",
     ["extensisq/common.py", "extensisq/bogacki.py", "extensisq/calvo.py",
      "extensisq/prince.py"],
     [{"name": "stiffness diagnosis", "where": "_diagnose_stiffness, "
       "stiff_a to stiff_d, _init_stiffness_detection"}],
     "Twin runs with and without diagnosis; verdicts are compared with the "
     "eigenvalues of the problem with wide margins.")

prop("C16", "Sensitivities are right, or refused",
     "Forward and adjoint sensitivities of a solution, and of functions of "
     "it, agree with the exact derivatives to the accuracy of the tolerance, "
     "for all methods, both directions of time, and scalar and array "
     "tolerances. If a callback is disturbed the result is still right, or "
     "not successful, or an exception; a wrong result is never returned as a "
     "success.",
     ["inputs", "configurations", "fault_sequences"],
     "methods, numbers of states, parameters and outputs, initial values "
     "that depend on parameters, fault sequences in each function",
     "Tests have two problems with two parameters, forward in time, with "
     "default options.",
     ["extensisq/sensitivity.py"],
     [{"name": "variational and adjoint equations",
       "where": "sens_forward, sens_adjoint_end, sens_adjoint_int"}],
     "Exact sensitivities of closed form solutions by complex steps and Gauss "
     "quadrature.",
     observe=["return values of sens_forward, sens_adjoint_end, "
              "sens_adjoint_int"])

prop("C17", "Equivalent descriptions of a problem give the same run",
     "Runs do not depend on how a problem is written down: mirrored time, "
     "other units, vectorised functions, lists or integers, tolerances as "
     "scalar or array, dense or sparse matrices, constant or callable "
     "Jacobians, an identity mass matrix, order of components, real or "
     "complex numbers; and callbacks always get arguments of the promised "
     "shape and type. This holds also for the response to rejections and "
     "disturbances.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "pairs of equivalent descriptions under the same fault sequence",
     "Tests solve each problem in one form; a slip in one direction of time, "
     "in one component or one representation is only visible in a pair.",
     ALLF, STEPS + [{"name": "input handling", "where": "validate_tol, "
                     "_validate_jac, _handle_M, __init__ of all solvers"}],
     "Exact transformations are compared bit by bit, inexact ones up to "
     "rounding, with a control group of runs with other roundings.")

prop("C18", "A disturbance costs a bounded amount of work",
     "After a disturbance of the callbacks has ended, the rest of the run "
     "needs about as much work as a new solver that is started from the "
     "state that was reached: poor Jacobians, factorisations, spectral radii, "
     "step sizes, orders and controller histories from the disturbed time are "
     "dropped. Rejections in undisturbed runs are rare compared to accepted "
     "steps, and step sizes keep following the error estimate: they do not "
     "stay far below the size that the tolerance allows.",
     ["fault_sequences", "histories", "configurations"],
     "transient faults in any callback, first steps of any size, all methods, "
     "options and problem families",
     "The state that decides about efficiency (step size controllers, reused "
     "Jacobians, order selection) depends on the history; the tests have "
     "undisturbed runs only and compare results, not work.",
     ALLF, STEPS + [{"name": "step size controllers and limits of the growth",
                     "where": "common.py, shampine.py, sommeijer.py, "
                     "calvo.py, bogacki.py, cash.py"},
                    {"name": "reuse of Jacobian and LU",
                     "where": "ESDIRK in common.py"}],
     "The rest of a disturbed run is compared with a new solver from the same "
     "state; limits are four times what undisturbed runs need. Not decided: "
     "HS2Ia on stiff problems (trapezoidal rule, no damping), "
     "differenced Jacobians that were hit by a finite glitch.")

NA = [
    ("C30", "Coefficients satisfy their order, stability and error constants",
     "The coefficients of each method satisfy the order conditions of the "
     "published order for the solution, the embedded formula and the "
     "interpolants, and have the published stability limits.",
     ["inputs"], "all methods and all smooth problems",
     "The tests check a part of the order conditions.",
     "A statement about constants: there is no schedule, clock, I/O or fault "
     "that it depends on, so a simulation decides nothing that arithmetic "
     "does not. Its observable consequence (accepted steps are the published "
     "formula) is claimed as C07, and the pinned coefficients of the "
     "reference are checked by the selftest."),
    ("C31", "The global error is proportional to the tolerance",
     "On smooth problems the error at the end of the interval decreases in "
     "proportion to a power of the tolerance, and the methods are as "
     "efficient as published.",
     ["inputs"], "all smooth problems and tolerances",
     "The tests look at few problems and tolerances.",
     "A numerical analysis statement about asymptotics without a sharp "
     "verdict for one execution: any limit is either too loose to detect a "
     "change or raises false alarms. The local, decidable part is claimed as "
     "C06 and C07."),
    ("C32", "Invalid arguments are refused with a helpful message",
     "Arguments of the wrong type, shape or range are refused at construction "
     "with an exception or warning that names the argument.",
     ["inputs"], "all invalid arguments",
     "The tests contain a few invalid arguments.",
     "A pure function of the arguments before anything runs: no schedule, "
     "time, I/O or fault is involved."),
]


def na(pid, title, statement, over, text, why, reason):
    return {"id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": ["extensisq/common.py"],
                        "mechanism": [{"name": "class bodies and argument "
                                       "validation", "where": "extensisq"}],
                        "hook_needed": None}}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
        for x in NA:
            f.write(json.dumps(na(*x)) + "\n")
    checks = []
    for p, note in P:
        pid = p["id"]
        checks.append({
            "property": pid,
            "quick_cmd": f"./check.sh {pid} quick",
            "thorough_cmd": f"./check.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "deterministic simulation with fault injection "
                         "(seeded search over fault sequences and schedules)",
            "level": "exploration",
            "level_note": note + " Sampled, not exhaustive; trusts numpy and "
                          "scipy."})
    m = {"version": 1,
         "setup_cmd": "./check.sh selftest --count 4",
         "checks": checks,
         "not_applicable": [{"property": x[0], "reason": x[6]} for x in NA],
         "notes": "No hooks in /repo were needed: callbacks, caller, process "
                  "and threads are the seams. 'fix:' commits in /repo are "
                  "listed in known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
