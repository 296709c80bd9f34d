"""C05 - every run ends: bounded work per step whatever the callbacks answer"""
from ..base import *  # noqa

PID = "C05"
QUICK, THOROUGH = 2600, 40000
DRY = True
RULE = ("each run injects non-finite, huge, or discontinuous answers (one "
        "call, a burst, or from some call on for ever) at calls biased to "
        "construction, step starts and step ends; a run counts when a fault "
        "fired")
STEP_BUDGET = 30_000
ASSUME = ["bounded work per step() call is checked as at most 30000 "
          "callbacks per call (a healthy step needs fewer than 200), and at "
          "most 8 million executed lines per run when no callback is made"]


def generate(r, i):
    spec = spec_for(r, i)
    if r.random() < .3:
        # at t = 0 a relative minimum step size is no bound
        p = spec["problem"]
        L = p["tb"] - p["t0"]
        p["t0"], p["tb"] = 0., L
    if r.random() < .1:
        p = spec["problem"]
        p["t0"], p["tb"] = p["t0"] - p["tb"], 0.
        if p["t0"] == 0.:
            p["t0"] = -1.
    d = dry(spec)
    kinds = ["nan", "nan1", "inf", "ninf", "huge", "big", "kick"]
    if spec["method"] == "SSV2stab":
        # its work per step grows with the spectral radius it is shown, by
        # design: only small finite glitches
        kinds = ["nan", "nan1", "inf", "ninf", "kick", "huge"]
    fs = gen_faults(r, kinds, d, nmax=2)
    u = r.random()
    if u < .5:
        fs[0]["n"] = -1
    elif u < .65:
        fs[0]["n"] = r.randrange(50, 2000)
    if d["jac"] and r.random() < .3:
        fs += gen_faults(r, ["jnan", "jnoise", "jscale"], d, "jac", 1)
        if r.random() < .4:
            fs[-1]["n"] = -1
    return {"spec": spec, "faults": fs}


def execute(sc):
    out = Out(PID)
    spec = sc["spec"]
    p = problems.build(spec["problem"])
    w = World(sc["faults"], budget=STEP_BUDGET, keep_log=True)
    h = drive.run(spec, w, problem=p, step_budget=STEP_BUDGET, max_steps=1200)
    out.history(h, spec["method"])
    out.world(w)
    if isinstance(h.error, SimBudget):
        out.bad("budget", f"no answer after {STEP_BUDGET} callbacks in "
                f"{'construction' if h.stage == 'init' else 'one step'} at "
                f"t={h.t}")
    elif h.error is not None:
        e = h.error
        ok = isinstance(e, (ValueError, np.linalg.LinAlgError, RuntimeError,
                            FloatingPointError)) and any(
            f["kind"] in ("nan", "nan1", "inf", "ninf", "huge", "big", "jnan")
            for f in sc["faults"])
        # documented behaviour is a failed status; a linear algebra error
        # with a non finite matrix is a clean refusal too, and so is an
        # assertion about the structure of the problem at construction
        ok = ok or (h.stage == "init" and isinstance(e, AssertionError))
        # answers that contradict each other have no consistent values
        ok = ok or (h.stage == "init" and isinstance(e, ValueError)
                    and bool(w.fired))
        if not ok:
            out.bad("error", f"{type(e).__name__}: {e}")
    elif h.status == "failed":
        s = h.solver
        t, y = s.t, np.array(s.y, copy=True)
        n = w.ncalls
        if not (h.message and isinstance(h.message, str)):
            out.bad("message", "failed without a message")
        try:
            s.step()
            out.bad("after_failure", "a failed solver can be stepped")
        except RuntimeError:
            pass
        if s.t != t or not np.array_equal(s.y, y, equal_nan=True) \
                or w.ncalls != n:
            out.bad("after_failure", "a failed solver changed")
        if not drive.same(s.t, h.t) or not drive.same(s.y, h.y):
            out.bad("failed_state", "the failed step changed t or y: "
                    f"t {h.t!r} -> {s.t!r}")
    elif h.status == "finished":
        if h.solver.t != p.tb:
            out.bad("end", f"finished at t={h.solver.t!r}, not {p.tb!r}")
    return out.done(w, w.fired)
