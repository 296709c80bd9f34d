"""C08 - an exception in a callback is passed on and leaves a usable solver"""
from ..base import *  # noqa
from . import c07

PID = "C08"
QUICK, THOROUGH = 3400, 55000
DRY = True
RULE = ("exceptions and interrupts are raised from the right hand side, "
        "Jacobian or spectral radius at calls picked from a dry run "
        "(construction, all stages, Jacobian differences, FSAL evaluation, "
        "stiffness detection, evaluations of dense output), the step is "
        "retried and the run continued; in some runs each call of a few steps "
        "is a crash point in turn; a run counts when a step was "
        "accepted after a retry")
ASSUME = ["the interpolant of the previous step is not specified after a step "
          "was aborted (it is not in scipy either)"]
# these methods repeat the aborted step in the same way
EXACT = set(methods.EXPLICIT + methods.NYSTROM + methods.MULTI)


def generate(r, i):
    if i % 7 == 3:
        return formula_scenario(r, i)
    if i % 7 == 5:
        return twin_scenario(r, i)
    if i % 7 == 1:
        return ladder_scenario(r, i)
    spec = spec_for(r, i)
    ps = spec["problem"]
    while not problems.build(ps).exact or ps["fam"] == "switch":
        spec = spec_for(r, i)
        ps = spec["problem"]
    if spec["method"] in methods.STIFFDET and r.random() < .5:
        spec["opts"]["nfev_stiff_detect"] = r.randrange(1, 60)
    d = dry(spec)
    kinds = ["raise", "raise", "raise", "interrupt"]
    fs = gen_faults(r, kinds, d, nmax=4)
    if d["jac"]:
        fs += gen_faults(r, kinds, d, "jac", 2)
    if spec["opts"].get("rho_jac"):
        fs.append({"agent": 0, "role": "rho", "k": r.randrange(30),
                   "kind": methods.pick(r, kinds)})
    if r.random() < .3:
        fs += gen_faults(r, ["nan", "nan1", "inf"], d, nmax=1)
    return {"spec": spec, "faults": fs,
            "dense": methods.pick(r, [0, 0, 1, 3])}


def formula_scenario(r, i):
    """methods that need not repeat the step in the same way: the step taken
    after the exception must be the formula from the last accepted state"""
    names = [*methods.IMPLICIT, "CKdisc", "SSV2stab"]
    spec = methods.gen_spec(r, method=names[i//7 % len(names)])
    ps = spec["problem"]
    o = spec["opts"]
    if r.random() < .7:            # rejected trials come first
        o["first_step"] = abs(ps["tb"] - ps["t0"])*r.uniform(.1, .6)
    d = dry(spec)
    fs = []
    for _ in range(r.randrange(1, 5)):
        f = {"agent": 0, "role": "fun",
             "kind": methods.pick(r, ["raise", "raise", "interrupt"])}
        u = r.random()
        if u < .2:
            f["k"] = d["init"] + r.randrange(60)
        elif u < .5 or not d["bounds"]:
            f["k"] = biased_k(r, d) + r.randrange(8)
        else:                      # in a step with rejected trials
            long = sorted(d["bounds"], key=lambda b: b[0] - b[1])
            b = long[min(r.randrange(4), len(long) - 1)]
            f["k"] = r.randrange(*b)
        fs.append(f)
    if d["jac"] and r.random() < .5:
        fs += gen_faults(r, ["raise", "interrupt"], d, "jac", 1)
    return {"spec": spec, "faults": fs, "formula": 1}


def twin_scenario(r, i):
    """rejected trials before and after the exception, any problem; only
    compared with the run without exceptions"""
    names = sorted(EXACT) + ["CKdisc"]
    spec = methods.gen_spec(r, method=names[i//7 % len(names)],
                            fams=methods.pick(r, [None, ["switch"]]))
    ps = spec["problem"]
    o = spec["opts"]
    if r.random() < .7:
        o["first_step"] = abs(ps["tb"] - ps["t0"])*10**r.uniform(-2, -.2)
    d = dry(spec)
    fs = []
    for _ in range(r.randrange(1, 5)):
        fs.append({"agent": 0, "role": "fun", "k": biased_k(r, d),
                   "kind": methods.pick(r, ["raise", "raise", "interrupt"])})
    return {"spec": spec, "faults": fs, "dense": 0, "twin": 1}


def ladder_scenario(r, i):
    """every crash point of a few steps: a step is aborted at its first call,
    repeated, aborted at its second call, and so on until it succeeds"""
    names = methods.ALL
    name = names[i//7 % len(names)]
    kw = {"fams": ["switch"]} if (name == "CKdisc" and r.random() < .5) else {}
    spec = methods.gen_spec(r, method=name, **kw)
    ps = spec["problem"]
    o = spec["opts"]
    if r.random() < .7:
        o["first_step"] = abs(ps["tb"] - ps["t0"])*10**r.uniform(-2, -.2)
    if name in methods.STIFFDET and r.random() < .3:
        o["nfev_stiff_detect"] = r.randrange(1, 60)
    d = dry(spec)
    fs = []
    extra = 0
    kind = methods.pick(r, ["raise", "raise", "interrupt"])
    steps = list(enumerate(d["bounds"]))
    # steps with rejected trials are more interesting
    steps.sort(key=lambda b: (b[1][0] - b[1][1])*r.random())
    for _, (c0, c1) in sorted(steps[:r.randrange(2, 6)]):
        a = c0 if c1 - c0 <= 36 else r.randrange(c0, c1 - 30)
        for k in range(a, min(a + 36, c1)):
            fs.append({"agent": 0, "role": "fun", "k": k + extra,
                       "kind": kind})
            extra += k - c0 + 1
    sc = {"spec": spec, "faults": fs, "dense": 0}
    if name in EXACT:
        sc["twin"] = 1
    else:
        sc["formula"] = 1
    return sc


def execute(sc):
    if sc.get("formula"):
        return c07.execute(sc, PID)
    out = Out(PID)
    spec = sc["spec"]
    name = spec["method"]
    p = problems.build(spec["problem"])
    sgn = 1. if p.tb >= p.t0 else -1.
    rtol, atol = tol_of(spec)
    # only value faults happen in the reference run
    w = World(sc["faults"], budget=20_000, keep_log=True)
    retries = [0]
    good = [0]
    advanced = [0]
    mark = {"t": p.t0, "pub": None, "fired": 0}

    def snap(s):
        mark["t"], mark["y"] = s.t, s.y
        mark["copy"] = np.array(s.y, copy=True)

    def verify(st, what):
        if sc.get("twin"):
            return
        if not (np.isfinite(st.t) and np.all(np.isfinite(st.y))):
            out.bad("nonfinite", f"{name}: {what} is not finite")
            return
        if not sgn*(st.t - st.t_old) > 0 or sgn*(st.t - p.tb) > 0:
            out.bad("time", f"{name}: {what} goes from t={st.t_old!r} to "
                    f"{st.t!r}")
            return
        q = drive.local_ratio(p, st, rtol, atol)
        out.hi("local_error_" + name, q)
        if not q < LOCAL[name]:
            out.bad("inaccurate", f"{name}: {what} from t={st.t_old!r} to "
                    f"{st.t!r} has a local error of {q:.3g} tolerances")

    def on_error(e, h):
        s = h.solver
        if not isinstance(e, (SimFault, SimInterrupt)):
            return False
        if e is not w.poison:
            out.bad("other_exception", f"{name}: {e!r} came out instead of "
                    f"{w.poison!r}")
        retries[0] += 1
        if s.status != "running" and s.status != "finished":
            out.bad("status", f"{name}: status {s.status} after an exception")
            return False
        last = (h.t, h.y)
        if drive.same(s.t, last[0], 0) and drive.same(s.y, last[1], 0):
            pass
        elif s.t == last[0] or not sgn*(s.t - last[0]) > 0:
            out.bad("torn", f"{name}: after an exception t={s.t!r} and y moved"
                    f" by {np.abs(s.y-last[1]).max():.3g}, last accepted "
                    f"t={last[0]!r}")
            return False
        else:
            # the step was complete before the exception
            advanced[0] += 1
            st = drive.Step(last[0], last[1], s.t, np.array(s.y, copy=True),
                            0, 0, s)
            verify(st, "the step taken before an exception")
            if s.t_old != last[0]:
                out.bad("torn", f"{name}: after an exception t={s.t!r} but "
                        f"t_old={s.t_old!r}, not {last[0]!r}")
            h.steps.append(st)
            if s.t == p.tb:
                return False
        return retries[0] < max(60, len(sc["faults"]) + 5)

    def on_step(h):
        st, s = h.steps[-1], h.solver
        if retries[0]:
            good[0] += 1
        verify(st, f"step {len(h.steps)}")
        if sc["dense"] and len(h.steps) % sc["dense"] == 0:
            before = (s.t, s.y.tobytes(), s.t_old, s.status)
            for _ in range(20):
                try:
                    so = s.dense_output()
                    break
                except (SimFault, SimInterrupt) as e:
                    out.mark("fired", "in_dense_output")
                    if e is not w.poison:
                        out.bad("other_exception", f"{name}: {e!r}")
            else:
                return
            if before != (s.t, s.y.tobytes(), s.t_old, s.status):
                out.bad("dense_state", f"{name}: dense_output changed the "
                        "published state")
            y1 = so(s.t)
            hh = abs(s.t - s.t_old)
            if any(w.fired.get(k) for k in ("nan", "nan1", "inf")) or \
                    hh < 1e-7*(1 + abs(s.t)):
                return
            tol = 1e-7*(1 + np.abs(s.y).max(initial=0))
            if not np.all(np.abs(y1 - s.y) <= tol):
                out.bad("dense_end", f"{name}: interpolant after a retry ends "
                        f"{np.abs(y1-s.y).max():.3g} from y")

    h = drive.run(spec, w, on_step=on_step, on_error=on_error, problem=p,
                  step_budget=20_000, max_steps=1500)
    if h.status == "noinit" and isinstance(h.error, (SimFault, SimInterrupt)):
        if h.error is not w.poison:
            out.bad("other_exception", f"{name}: {h.error!r} at construction "
                    f"instead of {w.poison!r}")
    elif h.error is not None and not isinstance(
            h.error, (SimFault, SimInterrupt, SimBudget)):
        nonfin = any(w.fired.get(k) for k in ("nan", "nan1", "inf"))
        if not nonfin:
            out.bad("library_error", f"{name}: {type(h.error).__name__}: "
                    f"{h.error} after an exception in a callback")
    elif isinstance(h.error, SimBudget):
        out.bad("endless", f"{name}: {h.error} in one step")
    if name in EXACT and retries[0] and h.status == "finished":
        # the same run without exceptions
        w2 = World([f for f in sc["faults"] if f["kind"] not in
                    ("raise", "interrupt")], budget=20_000)
        if not any(f["kind"] in ("nan", "nan1", "inf") for f in sc["faults"]):
            h2 = drive.run(spec, w2, problem=problems.build(spec["problem"]),
                           step_budget=20_000, max_steps=1500)
            a = [(s.t, s.y.tobytes()) for s in h.steps]
            b = [(s.t, s.y.tobytes()) for s in h2.steps]
            out.add("compared_with_clean_run")
            if a != b:
                j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y),
                         min(len(a), len(b)))
                out.bad("lost_state", f"{name}: step {j} differs from the run "
                        f"without exceptions ({len(a)} and {len(b)} steps)")
    out.history(h, name)
    out.world(w)
    out.add("retries", retries[0])
    out.add("steps_after_retry", good[0])
    out.add("aborted_after_acceptance", advanced[0])
    return out.done(w, good[0])
