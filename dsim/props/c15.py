"""C15 - stiffness diagnosis only watches"""
import re
import warnings

from ..base import *  # noqa

PID = "C15"
QUICK, THOROUGH = 2400, 50000
DRY = True
RULE = ("stiff, nearly stiff, oscillatory, discontinuous and smooth problems "
        "are integrated with the diagnosis off and with test intervals from "
        "1 to 3000 evaluations; calls made for the diagnosis (after the step "
        "was published) get non-finite and huge answers and exceptions; a "
        "run counts when the diagnosis evaluated the right hand side")
ASSUME = ["a problem that is reported as stiff must have an eigenvalue that "
          "puts the recent step size at 0.6 of the stability boundary of the "
          "method at least (the code uses 0.9)"]
NAMES = [n for n in methods.STIFFDET]
NYS = methods.NYSTROM


def generate(r, i):
    name = NAMES[i % len(NAMES)]
    if name in NYS:
        spec = spec_for(r, 0, names=[name], length=r.uniform(2, 12))
        if spec["problem"]["fam"] == "osc2" and r.random() < .7:
            spec["problem"]["stiff"] = 10**r.uniform(1, 2.3)
    else:
        fam = methods.pick(r, ["lin", "lin", "heat", "twist", "switch",
                               "logistic", "cosmul", "vdp"])
        spec = spec_for(r, 0, names=[name], fams=[fam],
                        length=r.uniform(1, 8))
        ps = spec["problem"]
        if fam == "lin" and r.random() < .6:
            ps["stiff"] = 10**r.uniform(1, 2.3)
        if fam == "switch":
            ps["nsw"] = r.randrange(2, 12)
        if fam == "heat" and r.random() < .5:
            ps["tb"] = ps["t0"] + (ps["tb"] - ps["t0"])*4
        if fam == "vdp":
            ps["mu"] = 10**r.uniform(0, 1.3)
    o = spec["opts"]
    # loose tolerances: stability limits the steps
    if r.random() < .7:
        o["rtol"] = 10**-r.uniform(1.5, 4)
        o["atol"] = o["rtol"]*10**-r.uniform(0, 2)
    if r.random() < .8:
        o.pop("max_step", None)
    o["nfev_stiff_detect"] = methods.pick(r, [
        1, 2, r.randrange(3, 30), r.randrange(30, 300),
        r.randrange(300, 3000)])
    fs = []
    if r.random() < .6:
        for _ in range(r.randrange(1, 4)):
            f = {"agent": 0, "role": "obs-fun", "k": int(10**r.uniform(0, 3)),
                 "kind": methods.pick(r, ["nan", "inf", "ninf", "nan1", "big",
                                          "huge", "kick", "raise",
                                          "interrupt"])}
            f["n"] = methods.pick(r, [1, 1, 3, 20, -1])
            if f["kind"] in ("raise", "interrupt") and f["n"] < 0:
                f["n"] = 2
            fs.append(f)
    return {"spec": spec, "faults": fs}


def go(sc, on, out):
    spec = dict(sc["spec"], opts=dict(sc["spec"]["opts"]))
    if not on:
        spec["opts"]["nfev_stiff_detect"] = 0
    name = spec["method"]
    p = problems.build(spec["problem"])
    w = World(sc["faults"] if on else [], budget=20_000, keep_log=True)
    args, kw, port, _ = methods.build_args(spec, w, problem=p)
    cur = {"s": None, "t": None}
    steps, msgs, hist, worst = [], [], [], 0

    def fun(t, y):
        s = cur["s"]
        w.observing = s is not None and s.t != cur["t"]
        try:
            return port.fun(t, y)
        finally:
            w.observing = False
    oc = None
    with warnings.catch_warnings():
        # the verdict is a warning: record where it was given
        warnings.simplefilter("always")
        place = {}

        def show(message, *a, **k):
            msgs.append((str(message), cur["t"], cur["s"]))
        warnings.showwarning = show
        try:
            s = methods.cls(name)(fun, *args[1:], **kw)
            cur["s"] = s
            while s.status == "running" and len(steps) < 1500:
                cur["t"], nm, k0 = s.t, len(msgs), w.ncalls
                y_before = s.y
                w.refill(20_000)
                try:
                    s.step()
                except (SimFault, SimInterrupt) as e:
                    if e is not w.poison:
                        out.bad("other_exception", f"{name}: {e!r}")
                if s.t != cur["t"]:
                    steps.append((float(s.t).hex(), s.y.tobytes()))
                    hist.append(abs(s.t - cur["t"]))
                    y_last = s.y
                obs = w.counts.get((0, "obs-fun"), 0)
                worst = max(worst, obs - place.get("obs", 0))
                place["obs"] = obs
                if on:
                    for m, *_ in msgs[nm:]:
                        verdict(m, p, name, s, hist, y_before, w, out)
                if s.t == p.tb and s.status == "running":
                    break       # the last step ended with an exception
            oc = "finished" if s.t == p.tb else s.status
        except (SimBudget, Exception) as e:
            oc = f"{type(e).__name__}: {e}"
    out.hi("evaluations_per_diagnosis", worst)
    if worst > 100:
        out.bad("work", f"{name}: {worst} evaluations for one diagnosis")
    if on and not w.fired and oc == "finished" and (
            p.fam == "heat" or sc["spec"]["problem"].get("stiff")
            and p.fam == "osc2"):
        must(p, name, s, hist, msgs, sc, out)
    return steps, oc, w, msgs


def verdict(m, p, name, s, hist, y_before, w, out):
    if "diagnosed as stiff" not in m:
        return
    out.add("stiff_verdicts")
    if w.fired:
        return                  # it was shown something else
    h = max(hist[-40:])
    z = max(reach(p, name, s, t, y, h)
            for t, y in ((s.t_old, y_before), (s.t, s.y)))
    out.stats["min_" + name] = min(out.stats.get("min_" + name, 99.), z)
    if not z > .6:
        out.bad("false_stiff", f"{name}: diagnosed as stiff at t={s.t!r} "
                f"where h*rho is {z:.3g} of the stability boundary")


def reach(p, name, s, t, y, h):
    """step size in units of the stability boundary"""
    ev = np.linalg.eigvals(np.atleast_2d(p.jac(t, y)))*h
    if name in NYS:
        return max(np.abs(ev.real).max()/s.stbre,
                   np.abs(ev.imag).max()/s.stbim)
    return np.abs(ev).max()/s.stbrad


def must(p, name, s, hist, msgs, sc, out):
    """a clearly stiff problem is reported"""
    n, N = len(hist), sc["spec"]["opts"]["nfev_stiff_detect"]
    many = max(1, N//s.n_stages)
    z = reach(p, name, s, s.t, s.y, np.mean(hist[n//4:]))
    if n < 100 + 4*many or n*s.n_stages < 8*N or \
            z < (.95 if name in NYS else .8):
        return
    out.add("clearly_stiff_runs")
    if not any("diagnosed as stiff" in m[0] for m in msgs):
        out.hi("missed_" + name, z)
        out.bad("missed_stiff", f"{name}: no warning in {n} steps that were "
                f"{z:.3g} of the stability boundary on average")


def execute(sc):
    out = Out(PID)
    name = sc["spec"]["method"]
    a, oca, _, _ = go(sc, False, out)
    b, ocb, w, msgs = go(sc, True, out)
    mins = {k: out.stats.pop(k) for k in list(out.stats) if k[:4] == "min_"}
    for k, v in mins.items():
        out.hi("inverse_" + k[4:], 1/v)
    if a != b:
        n = min(len(a), len(b))
        j = next((j for j in range(n) if a[j] != b[j]), n)
        out.bad("changed", f"{name}: step {j} differs with "
                f"nfev_stiff_detect={sc['spec']['opts']['nfev_stiff_detect']}"
                f" from the run without diagnosis ({len(a)}, {len(b)} steps)")
    elif oca != ocb:
        out.bad("outcome", f"{name}: ends '{ocb}' with diagnosis and '{oca}' "
                "without")
    obs = w.counts.get((0, "obs-fun"), 0)
    out.mark("runs_by_method", name)
    out.mark("outcomes", ocb[:30])
    out.add("accepted_steps", len(b))
    out.add("evaluations_for_diagnosis", obs)
    for m, *_ in msgs:
        out.mark("warnings", re.sub("[^a-z ]", "", m[:60].lower()))
    if b:
        out.add("sim_time", abs(float.fromhex(b[-1][0])
                                - sc["spec"]["problem"]["t0"]))
    out.world(w)
    return out.done(w, obs)
