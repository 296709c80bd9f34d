"""C12 - a poor Jacobian costs work, never accuracy"""
from ..base import *  # noqa

PID = "C12"
QUICK, THOROUGH = 2400, 50000
DRY = True
RULE = ("implicit methods on linear, nonlinear, mass matrix and DAE problems "
        "with a callable or differenced Jacobian; the Jacobian callback is "
        "stale, noisy, scaled, or non-finite in single calls, windows or for "
        "ever, and Newton iterations are also disturbed by non-finite "
        "derivatives; a run counts when a Jacobian fault fired and a step "
        "was accepted after it")
ASSUME = ["local errors are compared with the same limits as for undisturbed "
          "runs; they allow for the Newton error that the convergence test "
          "leaves"]
# a Newton iteration with a poor matrix ends further from the root
LIMIT = {"HS2I": 150, "HS2Ia": 90, "KC3I": 200, "KC4I": 250, "KC4Ia": 300,
         "Kv3I": 90}
FAMS = ("lin", "lin", "logistic", "cosmul", "twist", "bern", "mass",
        "daelog", "daelin", "heat", "stiffnl", "ramp")


def generate(r, i):
    spec = spec_for(r, i, names=methods.IMPLICIT,
                    fams=[methods.pick(r, FAMS)])
    o = spec["opts"]
    ps = spec["problem"]
    o.pop("jac_sparsity", None)
    o["jac"] = methods.pick(r, ["call", "call", "callsparse", "calllist"])
    if ps.get("cplx"):
        o["jac"] = "call"
    d = dry(spec)
    nj = max(1, d["jac"])
    # in algebraic equations the error of a poor Jacobian does not get
    # smaller with the step: progress is not promised there
    mild = r.random() < .6 and ps["fam"][:3] != "dae"
    # (with a matrix that is far too large, algebraic equations hardly move:
    # they seem to have converged once the other equations have)
    far = [] if ps["fam"][:3] == "dae" else [1e2, 1e3, 1e4, 1e5, -1e4]
    fs = []
    for _ in range(r.randrange(1, 3)):
        f = {"agent": 0, "role": "jac", "k": r.randrange(nj),
             "seed": r.randrange(1000)}
        f["kind"] = methods.pick(r, ["jnoise", "jstale", "jscale"] if mild
                                 else ["jnoise", "jscale", "jnan", "jstale"])
        amp = .2
        if f["kind"] == "jnoise":
            f["arg"] = r.uniform(.01, amp if mild else .9)
        if f["kind"] == "jscale":
            f["arg"] = r.uniform(1 - amp, 1 + amp) if mild else \
                methods.pick(r, [0., .3, 3., -1., 10.] + far)
        f["n"] = methods.pick(r, [1, 2, 5, -1, -1])
        if f["kind"] == "jstale" and mild and ps["fam"] in (
                "twist", "stiffnl", "ramp"):
            f["n"] = 1
        fs.append(f)
    if r.random() < .25:
        fs += gen_faults(r, ["nan", "inf", "nan1"], d, nmax=1)
        mild = False
    return {"spec": spec, "faults": fs, "mild": mild,
            "dry": [d["outcome"], d["nsteps"], d["ncalls"]]}


def execute(sc):
    out = Out(PID)
    spec = sc["spec"]
    name = spec["method"]
    p = problems.build(spec["problem"])
    rtol, atol = tol_of(spec)
    w = World(sc["faults"], budget=20_000, keep_log=True)
    good = [0]
    lim = LIMIT[name]
    if "stiff" in spec["problem"] or spec["problem"]["fam"] == "stiffnl":
        if any(abs(f.get("arg", 0)) > 10 for f in sc["faults"]):
            lim = 4*lim         # slow and fast convergence in one system

    def on_step(h):
        st = h.steps[-1]
        if not np.all(np.isfinite(st.y)):
            out.bad("nonfinite", f"{name}: step {len(h.steps)} is not finite")
            return
        q = drive.local_ratio(p, st, rtol, atol)
        out.hi("local_error_over_limit_" + name, q/lim)
        if w.fired:
            good[0] += 1
        if not q < lim:
            out.bad("inaccurate", f"{name}: step {len(h.steps)} from "
                    f"t={st.t_old!r} to {st.t!r} has a local error of {q:.3g} "
                    "tolerances")
    h = drive.run(spec, w, on_step=on_step, problem=p, step_budget=20_000,
                  max_steps=3000)
    nonfin = any(w.fired.get(k) for k in ("jnan", "nan", "inf", "nan1"))
    oc, nst, ncalls = sc["dry"]
    if isinstance(h.error, SimBudget):
        out.bad("endless", f"{name}: {h.error}")
    elif h.error is not None and not (nonfin and isinstance(
            h.error, (ValueError, np.linalg.LinAlgError, RuntimeError))):
        # a matrix of a DAE that is made singular can be refused
        singular = isinstance(h.error, (np.linalg.LinAlgError, RuntimeError,
                                        ValueError)) and not sc["mild"]
        if not singular:
            out.bad("error", f"{name}: {type(h.error).__name__}: {h.error} "
                    "with a poor Jacobian")
    if sc["mild"] and oc == "finished":
        if h.status != "finished":
            out.bad("unfinished", f"{name}: ends '{h.status}' at t={h.t!r} "
                    f"with a slightly wrong Jacobian: {h.message}")
        out.hi("work_ratio", w.ncalls/max(40, ncalls))
        if w.ncalls > 20*(ncalls + 40):
            out.bad("work", f"{name}: {w.ncalls} evaluations with a slightly "
                    f"wrong Jacobian, {ncalls} with the right one")
    out.history(h, name)
    out.world(w)
    out.add("steps_checked_after_fault", good[0])
    out.mark("mild", sc["mild"])
    return out.done(w, good[0])
