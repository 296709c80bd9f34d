"""C10 - looking does not change the integration"""
from ..base import *  # noqa

PID = "C10"
QUICK, THOROUGH = 2600, 50000
DRY = True
RULE = ("the same run, with the same faults in the integration itself, is "
        "made unobserved and observed: dense output asked once or repeatedly "
        "after a random subset of the steps, evaluated, its results "
        "overwritten, kept until the end; with additional faults (non-finite "
        "answers, exceptions) in evaluations made for the observer only; and "
        "through solve_ivp with dense_output, t_eval and events; a run counts "
        "when an interpolant was evaluated before another step was accepted")
ASSUME = ["Fi5N with interpolant=1 is excluded: it replaces the state of the "
          "solver by design"]
MODES = ("manual", "manual", "dense", "teval", "events", "all")


def generate(r, i):
    spec = spec_for(r, i)
    d = dry(spec)
    fs = []
    if r.random() < .5:
        fs = gen_faults(r, ["nan", "nan1", "inf", "ninf", "kick", "big"]
                        if spec["method"] != "SSV2stab" else
                        ["nan", "nan1", "inf", "kick"], d, nmax=2)
    mode = methods.pick(r, MODES)
    if mode in ("events", "all"):
        # the root finder of scipy rightly refuses non-finite interpolants
        fs = [f for f in fs if f["kind"] == "kick"]
    sc = {"spec": spec, "faults": fs, "mode": mode,
          "every": methods.pick(r, [1, 1, 2, 3]), "seed": r.randrange(1 << 30)}
    if mode == "manual":
        sc["repeat"] = methods.pick(r, [1, 1, 2, 3])
        if r.random() < .5:
            sc["faults"] = fs + [
                {"agent": 0, "role": "obs-fun", "k": r.randrange(60),
                 "n": methods.pick(r, [1, 1, 4, -1]),
                 "kind": methods.pick(r, ["nan", "inf", "raise", "raise",
                                          "big", "interrupt"])}]
    else:
        sc["nt"] = r.randrange(1, 30)
        sc["terminal"] = r.random() < .3
    return sc


class Watch:
    """subclass of the method that records steps and marks evaluations made
    for an observer"""

    def __new__(cls, base, w, steps, hook=None):
        class Observed(base):
            def step(self):
                w.refill(20_000)
                msg = super().step()
                steps.append((float(self.t).hex(), self.y.tobytes(),
                              self.status, msg))
                return msg

            def dense_output(self):
                w.observing = True
                try:
                    return super().dense_output()
                finally:
                    w.observing = False
        Observed.__name__ = base.__name__
        return Observed


def run(sc, observe, out=None):
    """-> (list of steps, outcome, extra)"""
    spec = sc["spec"]
    p = problems.build(spec["problem"])
    faults = [f for f in sc["faults"]
              if observe or not f["role"].startswith("obs")]
    w = World(faults, budget=20_000, keep_log=True)
    steps = []
    args, kw, port, _ = methods.build_args(spec, w, problem=p)
    klass = Watch(methods.cls(spec["method"]), w, steps)
    return p, w, steps, args, kw, klass


def manual(sc, observe, out):
    p, w, steps, args, kw, klass = run(sc, observe)
    r = rng(sc, "look")
    kept = []
    looks = [0]
    try:
        s = klass(*args, **kw)
        while s.status == "running" and len(steps) < 1500:
            s.step()
            if not observe or s.status == "failed":
                continue
            if len(steps) % sc["every"]:
                continue
            for _ in range(sc["repeat"]):
                try:
                    so = s.dense_output()
                except (SimFault, SimInterrupt):
                    continue
                ts = s.t_old + (s.t - s.t_old)*np.array(
                    [r.random() for _ in range(3)])
                a = so(ts)
                b = so(float(ts[0]))
                keep = np.array(a, copy=True)
                if len(kept) < 40:
                    kept.append((so, ts, keep, len(steps)))
                for z in (a, b):
                    if isinstance(z, np.ndarray) and z.flags.writeable:
                        z[...] = 7e77       # the observer owns what it gets
                looks[0] += 1
        oc = s.status
    except (SimBudget, Exception) as e:
        oc = f"{type(e).__name__}: {e}"
    if observe:
        for so, ts, keep, j in kept:
            if not np.array_equal(so(ts), keep, equal_nan=True):
                out.bad("interpolant_changed", f"{sc['spec']['method']}: the "
                        f"interpolant of step {j} gives other values after "
                        "later steps, or after its results were overwritten")
                break
    return steps, oc, looks[0], w, None


def ivp(sc, observe, out):
    from scipy.integrate import solve_ivp
    p, w, steps, args, kw, klass = run(sc, observe)
    r = rng(sc, "ivp")
    name = sc["spec"]["method"]
    mode = sc["mode"]
    opt = {}
    ts = sorted((r.random() for _ in range(sc["nt"])))
    ts = [p.t0 + (p.tb - p.t0)*x for x in ts]
    if r.random() < .5:
        ts.append(p.tb)
    if r.random() < .3:
        ts.insert(0, p.t0)
    ca, cb = r.gauss(0, 1), r.gauss(0, .5)
    om = r.uniform(1, 6)/abs(p.tb - p.t0)
    calls = []

    def event(t, y):
        calls.append(t)
        return float(np.real(y[0]))*ca*.3 + np.sin(om*(t - p.t0) + cb)

    def event2(t, y):
        return t - (.7*p.t0 + .3*p.tb)
    event.terminal = bool(sc["terminal"])
    if observe:
        if mode in ("dense", "all"):
            opt["dense_output"] = True
        if mode in ("teval", "all"):
            opt["t_eval"] = np.array(ts)
        if mode in ("events", "all"):
            opt["events"] = [event, event2]
    fun, t0, y0, tb = args
    kw = dict(kw)
    vec = kw.pop("vectorized", False)
    sol = None
    try:
        sol = solve_ivp(fun, (t0, tb), y0, method=klass, vectorized=vec,
                        **opt, **kw)
        oc = sol.status
    except (SimBudget, Exception) as e:
        oc = f"{type(e).__name__}: {e}"
    if observe and sol is not None:
        looks = len(steps)
        results(sc, sol, opt, ts, event, event2, p, steps, out)
    else:
        looks = 0
    return steps, oc, looks, w, sol


def results(sc, sol, opt, ts, event, event2, p, steps, out):
    name = sc["spec"]["method"]
    if any(k in ("nan", "inf", "nan1", "ninf", "big", "huge") for k in
           [f["kind"] for f in sc["faults"]]):
        return
    end = float.fromhex(steps[-1][0]) if steps else p.t0
    sgn = 1. if p.tb >= p.t0 else -1.
    if sol.status == 0 and "t_eval" in opt:
        if not np.array_equal(sol.t, np.array(ts)):
            out.bad("t_eval", f"{name}: {np.size(sol.t)} of {len(ts)} requested "
                    "output times")
    if sol.sol is not None and "t_eval" in opt and np.size(sol.t):
        a, b = sol.y, sol.sol(sol.t)
        sc_ = 1 + np.abs(b).max(initial=0)
        if not np.all(np.abs(a - b) <= 1e-9*sc_):
            out.bad("t_eval_dense", f"{name}: t_eval and dense output differ "
                    f"by {np.abs(a-b).max():.3g}")
    if sol.t_events is not None:
        if sol.status == 0 and (np.size(sol.t_events[1]) != 1 or abs(
                sol.t_events[1][0] - (.7*p.t0 + .3*p.tb)) > 1e-9*(
                    1 + abs(p.t0) + abs(p.tb))):
            out.bad("event_time", f"{name}: the event at a fixed time is "
                    f"found at {sol.t_events[1]}")
        for te, ye in zip(sol.t_events[0], sol.y_events[0]):
            g = abs(event(te, ye))
            if not g < 1e-6*(1 + np.abs(ye).max()):
                out.bad("event_root", f"{name}: event function is {g:.3g} at "
                        f"the reported event t={te!r}")
        # each sign change between accepted states is reported
        y = p.y0
        t = p.t0
        for th, yb, *_ in steps:
            tn = float.fromhex(th)
            yn = np.frombuffer(yb, dtype=p.y0.dtype)
            ga, gb = event(t, y), event(tn, yn)
            if ga*gb < 0 and min(abs(ga), abs(gb)) > 1e-5:
                inside = [te for te in sol.t_events[0]
                          if sgn*(te - t) >= 0 and sgn*(tn - te) >= 0]
                if not inside:
                    out.bad("event_missed", f"{name}: sign change between "
                            f"{t!r} and {tn!r} is not reported")
            t, y = tn, yn


def execute(sc):
    out = Out(PID)
    name = sc["spec"]["method"]
    go = manual if sc["mode"] == "manual" else ivp
    a, oca, _, wa, _ = go(sc, False, out)
    b, ocb, looks, wb, sol = go(sc, True, out)
    n = min(len(a), len(b))
    if sc["mode"] in ("events", "all") and sc["terminal"] and ocb == 1:
        a, oca = a[:len(b)], 1
    j = next((j for j in range(n) if a[j] != b[j]), n)
    if a != b:
        out.bad("changed", f"{name}: step {j} of {len(a)} differs when the "
                f"run is observed ({sc['mode']}, {len(b)} steps)")
    elif oca != ocb:
        out.bad("outcome", f"{name}: the run ends '{ocb}' when observed and "
                f"'{oca}' when not")
    out.mark("runs_by_method", name)
    out.mark("modes", sc["mode"])
    out.mark("outcomes", str(ocb)[:30])
    out.add("accepted_steps", len(b))
    out.add("observed_steps", looks)
    out.add("evaluations_for_observer", wb.counts.get((0, "obs-fun"), 0))
    if b:
        out.add("sim_time", abs(float.fromhex(b[-1][0])
                                - sc["spec"]["problem"]["t0"]))
    out.world(wb)
    return out.done(wb, looks and len(b) > 1)
