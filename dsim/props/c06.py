"""C06 - nothing non-finite or inaccurate is ever accepted"""
from ..base import *  # noqa

PID = "C06"
QUICK, THOROUGH = 3000, 40000
DRY = True
RULE = ("smooth problems with an exact flow; NaN/inf/glitch faults hit calls "
        "of the right hand side, also inside rejected trials and Jacobian "
        "differences; each accepted step is compared with the exact flow from "
        "the accepted state before it; a run counts when a fault fired and a "
        "step was accepted after it")
NONFIN = ("nan", "nan1", "inf", "ninf")


def generate(r, i):
    spec = spec_for(r, i)
    while not problems.build(spec["problem"]).exact \
            or spec["problem"]["fam"] == "switch":
        spec = spec_for(r, i)
    d = dry(spec)
    if r.random() < .6:
        fs = gen_faults(r, list(NONFIN), d, nmax=2)
    else:
        fs = gen_faults(r, list(NONFIN) + ["big", "kick", "huge"], d, nmax=2)
    if d["jac"] and r.random() < .3:
        fs += gen_faults(r, ["jnoise", "jscale", "jnan"], d, "jac", 1)
    return {"spec": spec, "faults": fs}


def execute(sc):
    out = Out(PID)
    spec = sc["spec"]
    name = spec["method"]
    p = problems.build(spec["problem"])
    w = World(sc["faults"], budget=20_000, keep_log=True)
    rtol, atol = tol_of(spec)
    finite_fired = [-99]      # index of last step hit by a finite glitch
    glitch = ("big", "kick", "huge")
    last = {"n": 0}
    good = [0]

    def nglitch():
        return sum(w.fired.get(k, 0) for k in glitch)

    def on_step(h):
        st = h.steps[-1]
        if not (np.isfinite(st.t) and np.all(np.isfinite(st.y))):
            out.bad("nonfinite", f"accepted state is not finite at t={st.t}: "
                    f"{st.y}")
            return
        j = len(h.steps)
        if nglitch() > last["n"]:
            last["n"] = nglitch()
            finite_fired[0] = j
        # a multistep history, or a differenced Jacobian, keeps a finite
        # glitch that nobody can recognise
        memory = 1
        if methods.group(name) == "multi" or \
                spec["opts"].get("jac") == "none":
            memory = 10**9
        if j - finite_fired[0] <= memory:
            return
        q = drive.local_ratio(p, st, rtol, atol)
        out.hi("local_error_over_tolerance_" + name, q)
        if w.fired:
            good[0] += 1
        if not q < LOCAL[name]:
            out.bad("inaccurate", f"step {j} from t={st.t_old!r} to {st.t!r} "
                    f"has a local error of {q:.3g} tolerances")

    h = drive.run(spec, w, on_step=on_step, problem=p, step_budget=20_000,
                  max_steps=1500)
    out.history(h, name)
    out.world(w)
    out.add("steps_checked_after_fault", good[0])
    # a failing step must leave the last accepted state
    s = h.solver
    if s is not None and (not drive.same(s.t, h.t)
                          or not drive.same(s.y, h.y)):
        out.bad("failed_state", f"after the failure t={s.t!r}, last accepted "
                f"t={h.t!r}")
    return out.done(w, good[0])
