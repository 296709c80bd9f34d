"""C18 - a disturbance costs a bounded amount of work, and step sizes follow
the error estimate"""
from ..base import *  # noqa
from .. import refmodel as R

PID = "C18"
QUICK, THOROUGH = 3000, 45000
DRY = True
RULE = ("transient faults (non-finite answers, finite glitches, bad Jacobians, "
        "exceptions with retry) at calls from a dry run, or none; when they "
        "have stopped, a new solver is started from the state that was "
        "reached, and the disturbed one must not need much more work than "
        "that one; the step sizes of methods with a one step reference model "
        "are compared with the size at which the error estimate is one; the "
        "work of SSV2stab with its own estimate of the spectral radius with "
        "that for the exact one; a run "
        "counts when steps after a fault, or windows of steps, were compared")
ASSUME = ["thresholds are four times what undisturbed runs need, or more"]


def generate(r, i):
    if i % 8 == 7:
        return radius_scenario(r)
    while True:
        spec = spec_for(r, i)
        ps = spec["problem"]
        if not problems.build(ps).exact or ps["fam"] == "switch":
            continue
        if r.random() < .5:
            spec["opts"].pop("max_step", None)
        if r.random() < .3:
            # a bad first step, from which the control has to recover
            L = abs(ps["tb"] - ps["t0"])
            spec["opts"]["first_step"] = L*10**r.uniform(-7, -.5)
        d = dry(spec)
        if d["status"] == "finished" and d["nsteps"] <= 600:
            break
    sc = {"spec": spec, "faults": []}
    if r.random() < .8:
        kinds = ["nan", "nan1", "inf", "big", "big", "kick", "kick", "huge",
                 "raise"]
        g = methods.group(spec["method"])
        if g in ("explicit", "nystrom"):
            kinds = ["big", "big", "kick", "kick", "raise", "interrupt"]
        if g == "stab":
            kinds = ["nan", "inf", "kick", "raise"]
        fs = gen_faults(r, kinds, d, nmax=3)
        for f in fs:
            if r.random() < .6:
                f["k"] = max(d["init"], int(f["k"]*r.random()))
        if d["jac"] and r.random() < .5:
            fs += gen_faults(r, ["jnoise", "jscale", "jstale", "raise"], d,
                             "jac", 2)
        sc["faults"] = fs
    return sc


def radius_scenario(r):
    """SSV2stab with its own estimate of the spectral radius, or a user's"""
    while True:
        spec = methods.gen_spec(r, method="SSV2stab", fams=["ramp", "ramp",
                                                            "heat"],
                                length=r.uniform(3, 30))
        ps = spec["problem"]
        if ps["fam"] == "ramp":
            ps["stiff"] = 10**r.uniform(2, 3.5)
        o = spec["opts"]
        o.pop("rho_jac", None)
        o.pop("const_jac", None)
        o.pop("first_step", None)
        if r.random() < .7:
            o.pop("max_step", None)
        d = dry(spec)
        if d["status"] == "finished" and 30 < d["nsteps"] <= 600:
            break
    sc = {"spec": spec, "faults": [], "radius": 1}
    if r.random() < .6:
        # an estimate that is far too large, in some steps
        for _ in range(r.randrange(1, 4)):
            c = d["bounds"][r.randrange(len(d["bounds"]))][0]
            sc["faults"].append({"agent": 0, "role": "fun", "kind": "kick",
                                 "k": c, "n": r.randrange(2, 12),
                                 "arg": 10**r.uniform(-8, -4.5)})
    return sc


def radius(out, sc):
    """calls with an estimated spectral radius and with the exact one"""
    spec = sc["spec"]
    p = problems.build(spec["problem"])
    w = World(sc["faults"], budget=100_000, keep_log=True)
    nfired, marks = [0], []

    def on_step(h):
        marks.append(len(w.fired_ids) > nfired[0])
        nfired[0] = len(w.fired_ids)

    h = drive.run(spec, w, problem=p, step_budget=50_000, max_steps=1500,
                  on_step=on_step)
    sp = dict(spec, opts=dict(spec["opts"], rho_jac=True))
    w2 = World(budget=100_000)
    h2 = drive.run(sp, w2, problem=p, step_budget=50_000, max_steps=1500)
    out.history(h, "SSV2stab")
    out.world(w)
    if h.status != "finished" or h2.status != "finished":
        return out.done(w, 0)
    a, b = w.counts[0, "fun"], w2.counts[0, "fun"]
    n, m = len(h.steps), len(h2.steps)
    if w.fired:
        return out.done(w, recovery(out, spec, p, h, w, marks, "stab",
                                    True))
    out.hi("radius_calls", (a - 100)/b)
    out.hi("radius_steps", (n - 10)/m)
    if n - 10 > 2.5*m or a - 100 > 2.6*b:
        out.bad("radius", f"SSV2stab: {n} steps and {a} calls with its own "
                f"spectral radius, {m} and {b} with the exact one")
    return out.done(w, n)


def execute(sc):
    out = Out(PID)
    if sc.get("radius"):
        return radius(out, sc)
    spec = sc["spec"]
    name = spec["method"]
    g = methods.group(name)
    p = problems.build(spec["problem"])
    w = World(sc["faults"], budget=20_000, keep_log=True)
    rtol, atol = tol_of(spec)
    rtol = min(max(rtol, 1e-15), .1)
    nfired, marks, tries = [0], [], [0]

    def on_step(h):
        n = len(w.fired_ids)
        marks.append(n > nfired[0])
        nfired[0] = n

    def on_error(e, h):
        tries[0] += 1
        return isinstance(e, (SimFault, SimInterrupt)) and tries[0] < 40 \
            and h.solver.t == h.t

    with recording_port(p):
        h = drive.run(spec, w, on_step=on_step, on_error=on_error, problem=p,
                      step_budget=20_000, max_steps=1500)
    out.history(h, name)
    out.world(w)
    compared = 0
    ps = spec["problem"]
    glitch = any(w.fired.get(k) for k in ("big", "kick", "huge"))
    if w.fired and name == "HS2Ia" and (
            ps.get("stiff") or ps["fam"] in ("heat", "daelin", "daelog")):
        pass          # the trapezoidal rule never forgets an error in y'
    elif glitch and spec["opts"].get("jac") == "none":
        pass          # nobody can recognise a differenced glitch
    elif h.status == "finished" and h.steps:
        compared += recovery(out, spec, p, h, w, marks, g)
    elif h.status == "running" and h.error is None:
        out.bad("endless", f"{name}: not finished after {len(h.steps)} steps")
    if not w.fired and g == "implicit" and h.status == "finished" \
            and not spec["opts"].get("jac_each_step"):
        compared += fresh(out, spec, p, h, w)
    if g in ("explicit", "nystrom") and name != "CKdisc" and h.steps:
        compared += control(out, spec, p, h, marks, rtol, atol)
    return out.done(w, compared)


def recovery(out, spec, p, h, w, marks, g, radius=False):
    """work after the last fault against that of a new solver"""
    name = spec["method"]
    if not any(marks):
        # during construction, or not at all: then compare with a solver
        # that is started somewhere on the way
        last = 0 if w.fired else len(h.steps)//3
    else:
        last = max(j for j, m in enumerate(marks) if m)
    # SSV2stab keeps a spectral radius for 25 steps, by design
    memory = {"multi": 14, "stab": 27}.get(g, 2)
    if g == "stab" and spec["opts"].get("const_jac") \
            and w.fired.get("kick"):
        return 0
    j = last + memory
    if j >= len(h.steps) - 2:
        return 0
    st = h.steps[j]
    sp = dict(spec, opts=dict(spec["opts"]))
    sp["opts"].pop("first_step", None)
    sp["t0"], sp["y_restart"] = st.t, np.array(st.y, copy=True)
    w2 = World(budget=20_000)
    h2 = drive.run(sp, w2, problem=p, step_budget=20_000, max_steps=1500)
    if h2.status != "finished":
        return 0
    mine = h.steps[-1].c1 - st.c1
    nmine = len(h.steps) - 1 - j
    new, nnew = w2.ncalls, len(h2.steps)
    cost = new/max(1, nnew)
    extra = EXTRA*(2 if g == "stab" and not radius else 1)
    out.hi("excess_steps_" + name, nmine - STEPS*nnew)
    out.hi("excess_work_" + name, (mine - STEPS*new)/cost)
    usual = float(np.median([s.c1 - s.c0 for s in h.steps]))
    if not w.fired:
        q = sum(s.c1 - s.c0 for s in h.steps)/usual - WASTE*len(h.steps)
        out.hi("waste_" + name, q)
        if q > EXTRA*{"implicit": 2, "stab": 5}.get(g, 1):
            out.bad("waste", f"{name}: {len(h.steps)} undisturbed steps of "
                    f"usually {usual} calls took {q:.3g} times that number "
                    "more than expected")
    elif g != "stab":
        for k, s in enumerate(h.steps):
            if marks[k]:
                q = (s.c1 - s.c0)/usual
                out.hi("disturbed_step_" + name, q)
                if q > 200:
                    out.bad("disturbed", f"{name}: the step from t="
                            f"{s.t_old!r} took {s.c1 - s.c0} calls, a step "
                            f"usually takes {usual}")
    if nmine > STEPS*nnew + extra or mine > STEPS*new + extra*cost:
        out.bad("recovery", f"{name}: after the last fault (in the step to "
                f"t={h.steps[last].t!r}) it takes {nmine} steps and {mine} "
                f"calls from t={st.t!r} to the end, a new solver {nnew} and "
                f"{new}")
    return nmine


STEPS, EXTRA, WASTE = 2., 40, 1.5


def fresh(out, spec, p, h, w):
    """an old Jacobian saves work, it does not cost steps"""
    name = spec["method"]
    sp = dict(spec, opts=dict(spec["opts"], jac_each_step=True))
    w2 = World(budget=20_000)
    h2 = drive.run(sp, w2, problem=p, step_budget=20_000, max_steps=1500)
    if h2.status != "finished":
        return 0
    n, m = len(h.steps), len(h2.steps)
    out.hi("more_steps_with_old_jacobian_" + name, n - FRESH*m)
    out.hi("calls_ratio_with_old_jacobian_" + name, w.ncalls/w2.ncalls)
    if n > FRESH*m + 10:
        out.bad("stale", f"{name}: {n} steps, but {m} with an evaluation of "
                "the Jacobian in each step")
    return m


FRESH = 1.5


def control(out, spec, p, h, marks, rtol, atol):
    name = spec["method"]
    f = p.f
    o = spec["opts"]
    hmax = o.get("max_step", np.inf)
    c = R.co(name)
    q = min(c["order"], c["order_secondary"]) + 1 if "order" in c else None
    eff = []
    n = 0
    bad = 0
    for j, st in enumerate(h.steps):
        hh = st.t - st.t_old
        f0 = answer_at(h.port, p, st.t_old, st.y_old)
        if marks[j] or not np.all(np.isfinite(f0)) or abs(hh) > .45*hmax \
                or abs(p.tb - st.t_old) < 3*abs(hh):
            eff = []
            continue
        sc = atol + rtol*np.maximum(np.abs(st.y_old), np.abs(st.y))
        if name in methods.NYSTROM:
            m = st.y.size//2
            ref, err, K = R.nystrom(name, f, st.t_old, st.y_old, hh, f0[m:],
                                    o)
        else:
            ref, err, K = R.explicit(name, f, st.t_old, st.y_old, hh, f0)
        e = R.rms(err/sc)
        eff.append((max(e, 1e-30)**(1/q), abs(hh), st))
        if len(eff) > WINDOW:
            eff.pop(0)
        if len(eff) == WINDOW:
            n += 1
            mean = float(np.exp(np.mean([np.log(a[0]) for a in eff])))
            grow = eff[-1][1]/eff[0][1]
            if grow < 2.:
                out.hi("idle_" + name, 1/mean)
            if mean < EFF and grow < 2.:
                out.bad("control", f"{name}: {WINDOW} steps from t="
                        f"{eff[0][2].t_old!r} have on average {mean:.3g} of "
                        "the size that the error estimate allows, and grow "
                        f"only by a factor {grow:.3g}")
                break
    return n


WINDOW, EFF = 10, .25
