"""C09 - after a crash the last accepted state is all that is needed"""
from ..base import *  # noqa
from .. import iso

PID = "C09"
QUICK, THOROUGH = 2400, 40000
DRY = True
RULE = ("the process is killed at callbacks picked from a dry run, up to five "
        "times in a run and also during construction of a restarted solver; "
        "only (t, y) of the last accepted step survives; a new solver starts "
        "from it in the dirty process (where the dead solvers' module and "
        "class state is left behind) and in a pristine one, and both must do "
        "the same; a run counts when a restarted solver accepted a step")


def generate(r, i):
    while True:
        spec = spec_for(r, i)
        ps = spec["problem"]
        if not problems.build(ps).exact or ps["fam"] == "switch":
            continue
        d = dry(spec)
        if d["status"] == "finished" and d["nsteps"] <= 600:
            break
    n = methods.pick(r, [1, 1, 2, 3, 5])
    crashes = []
    for j in range(n):
        if r.random() < .15:
            k = r.randrange(8)             # while restarting
        else:
            k = biased_k(r, d)
            if j:
                k = k//2
        crashes.append({"role": "fun", "k": k})
    if d["jac"] and r.random() < .3:
        crashes[0] = {"role": "jac", "k": r.randrange(d["jac"])}
    sc = {"spec": spec, "crashes": crashes, "dry_steps": d["nsteps"]}
    if r.random() < .4:
        # other solvers that die in the same process before the last restart
        sc["others"] = []
        for _ in range(r.randrange(1, 4)):
            m = spec["method"] if r.random() < .6 else methods.pick(
                r, methods.ALL)
            o = methods.gen_spec(r, method=m)
            if m in methods.IMPLICIT and r.random() < .5:
                o = methods.gen_spec(r, method=m, fams=["daelin", "daelog",
                                                        "mass"])
            sc["others"].append({"spec": o, "crash": {
                "role": "fun", "k": int(10**r.uniform(0, 2.5))}})
    return sc


def life(spec, state, crash, p):
    """one incarnation -> (list of accepted steps, outcome)"""
    sp = dict(spec, opts=dict(spec["opts"]))
    if state is not None:
        sp["t0"], sp["y_restart"] = state[0], np.array(state[1], copy=True)
        fs = sp["opts"].get("first_step")
        if fs is not None and fs > abs(p.tb - state[0]):
            sp["opts"].pop("first_step")
    w = World([] if crash is None else [dict(crash, kind="crash")],
              budget=20_000, keep_log=True)
    h = drive.run(sp, w, problem=p, step_budget=20_000, max_steps=2500)
    return h, w


def pristine(spec, state):
    p = problems.build(spec["problem"])
    h, w = life(spec, state, None, p)
    return [(float(s.t).hex(), s.y.tobytes(), s.nfev, s.njev, s.nlu)
            for s in h.steps], outcome(h)


def execute(sc):
    out = Out(PID)
    spec = sc["spec"]
    name = spec["method"]
    p = problems.build(spec["problem"])
    sgn = 1. if p.tb >= p.t0 else -1.
    rtol, atol = tol_of(spec)
    state = None
    plan = list(sc["crashes"]) + [None]
    after = 0
    total = 0
    digests = []
    for j, crash in enumerate(plan):
        start = state
        if crash is None:
            for o in sc.get("others", ()):
                wo = World([dict(o["crash"], kind="crash")], budget=20_000)
                drive.run(o["spec"], wo, step_budget=20_000, max_steps=100)
                out.add("other_solvers_before")
        h, w = life(spec, state, crash, p)
        digests.append(w.digest())
        out.world(w)
        if h.error is not None and not isinstance(h.error, SimCrash):
            out.bad("restart_error", f"{name}: restart {j} from t="
                    f"{p.t0 if state is None else state[0]!r}: "
                    f"{type(h.error).__name__}: {h.error}")
            break
        if h.t_start is not None and start is not None:
            if h.t_start != start[0]:
                out.bad("start", f"{name}: restarted at {h.t_start!r}, not at "
                        f"{start[0]!r}")
            scale = atol + rtol*np.abs(start[1])
            q = float((np.abs(h.y_start - start[1])/scale).max())
            out.hi("moved_at_restart", q)
            if not q <= 30.:
                out.bad("start", f"{name}: restart moved the state by {q:.3g} "
                        "tolerances")
        for st in h.steps:
            if not sgn*(st.t - st.t_old) > 0 or sgn*(st.t - p.tb) > 0:
                out.bad("time", f"{name}: step from {st.t_old!r} to {st.t!r}")
            q = drive.local_ratio(p, st, rtol, atol)
            out.hi("local_error_" + name, q)
            if not q < LOCAL[name]:
                out.bad("inaccurate", f"{name}: after restart {j} the step "
                        f"from t={st.t_old!r} to {st.t!r} has a local error "
                        f"of {q:.3g} tolerances")
                break
        total += len(h.steps)
        if j:
            after += len(h.steps)
        if h.steps:
            state = (h.steps[-1].t, h.steps[-1].y)
        if crash is None or h.error is None:
            out.history(h, name)
            if h.status != "finished" or h.t != p.tb:
                out.bad("unfinished", f"{name}: after {j} crashes the run "
                        f"ends '{h.status}' at t={h.t!r}: {h.message}")
            if start is not None:
                ref, oc = iso.fork_call(_pristine_clean, spec, start)
                mine = [(float(s.t).hex(), s.y.tobytes(), s.nfev, s.njev,
                         s.nlu) for s in h.steps]
                if ref != mine or oc != outcome(h):
                    out.bad("dirty", f"{name}: the restart from t="
                            f"{start[0]!r} differs from the same restart in "
                            "a pristine process")
            break
    out.add("crashes", j)
    out.mark("crashes_per_run", j)
    if total > 40*(sc["dry_steps"] + 40*(j + 1)):
        out.bad("progress", f"{name}: {total} steps with {j} crashes, "
                f"{sc['dry_steps']} without")
    out.digest = ":".join(digests)
    return out.done(None, after)


def _pristine_clean(spec, start):
    # this fork inherits the dirty process; a new interpreter state of the
    # library is made by loading it again
    import sys
    import importlib
    for m in [m for m in sys.modules if m.split(".")[0] == "extensisq"]:
        del sys.modules[m]
    importlib.import_module("extensisq")
    return pristine(spec, start)
