"""C07 - an accepted step is the method's formula and passed its error test"""
from ..base import *  # noqa
from .. import refmodel as R

PID = "C07"
QUICK, THOROUGH = 3400, 60000
DRY = True
RULE = ("all 21 methods in rotation, smooth and (CKdisc) discontinuous "
        "problems, tolerances loose enough to force rejections, faults inside "
        "trials; every accepted step is recomputed by an independent "
        "reference model of the published method from the last accepted "
        "state, and its error estimate is recomputed; a run counts when at "
        "least one step was recomputed")
ASSUME = ["the reference models use the published coefficients as pinned in "
          "dsim/coeffs.json, which the selftest verifies against the order "
          "conditions"]
TOLY = 1e-9


def generate(r, i):
    name = methods.ALL[i % 21]
    if name == "CKdisc" and r.random() < .7:
        spec = methods.gen_spec(r, method=name, fams=["switch"])
        spec["problem"]["nsw"] = r.randrange(1, 5)
    else:
        spec = methods.gen_spec(r, method=name)
    o = spec["opts"]
    if r.random() < .3:
        o["first_step"] = abs(spec["problem"]["tb"] - spec["problem"]["t0"]) \
            * r.uniform(.05, .5)
    sc = {"spec": spec, "faults": []}
    if r.random() < .45:
        d = dry(spec)
        kinds = ["nan", "nan1", "inf", "big", "kick"]
        if name == "SSV2stab":
            kinds = ["nan", "inf", "kick"]
        sc["faults"] = gen_faults(r, kinds, d, nmax=2)
        if d["jac"] and r.random() < .5:
            sc["faults"] += gen_faults(r, ["jnoise", "jscale"], d, "jac", 1)
    if r.random() < .3:
        # abort trials, also repeated ones, and take the step again
        d = dry(spec)
        kinds = ["raise", "raise", "interrupt"]
        for _ in range(r.randrange(1, 5)):
            f = gen_faults(r, kinds, d, nmax=1)[0]
            f["k"] += r.randrange(8)
            sc["faults"].append(f)
        if d["jac"] and r.random() < .5:
            sc["faults"] += gen_faults(r, kinds, d, "jac", 1)
    return sc


def _close(a, b, tol, mag):
    return bool(np.all(np.abs(a - b) <= tol*mag))


def execute(sc, pid=PID):
    out = Out(pid)
    spec = sc["spec"]
    name = spec["method"]
    p = problems.build(spec["problem"])
    w = World(sc["faults"], budget=20_000, keep_log=True)
    rtol, atol = tol_of(spec)
    rtol = min(max(rtol, 1e-15), .1)
    g = methods.group(name)
    hist = {"t": [], "f": [], "y": None}
    checked = [0]
    retried = [0]
    state = {"glitch": 0, "dirty": -9}
    kmax = spec["opts"].get("k_max", 12)

    def f(t, y):
        return p.f(t, y)

    def f_given(h, t, y):
        return answer_at(h.port, p, t, y)

    def fired():
        return sum(w.fired.get(k, 0) for k in ("big", "kick", "huge"))

    chain = R.EsdirkChain(name, p, lambda t, y: initial_slope(
        p, t, y, answer_at(chain.port, p, t, y)))

    def on_step(h):
        st = h.steps[-1]
        t, y, tn, yn = st.t_old, st.y_old, st.t, st.y
        hh = tn - t
        dirty = fired() > state["glitch"]
        state["glitch"] = fired()
        if g == "implicit":
            if dirty:
                chain.lose(10**9 if spec["problem"].get("stiff") else 4)
            chain.port = h.port
            state["chained"] = chain.step(t, y, tn, yn, scale(y, yn))
        f0 = f_given(h, t, y)
        if g == "multi":
            if not hist["t"]:
                hist["t"], hist["f"] = [t], [f0]
            hist["y"] = y
        try:
            if dirty or (state["glitch"] and spec["opts"].get("jac")
                         == "none"):
                return             # a differenced Jacobian keeps a glitch
            if abs(hh) < 1e-13*max(abs(t), abs(tn)) \
                    or not np.all(np.isfinite(f0)):
                return                 # rounding dominates
            if pid == PID or retried[0]:
                check(h, st, t, y, tn, yn, hh, f0)
        finally:
            if g == "multi":
                hist["t"].insert(0, tn)
                hist["f"].insert(0, f_given(h, tn, yn))
                del hist["t"][14:], hist["f"][14:]

    def scale(a, b):
        return atol + rtol*np.maximum(np.abs(a), np.abs(b))

    def report(st, what, ref, yn, mag):
        q = float((np.abs(ref - yn)/mag).max())
        out.bad("formula", f"step {len(out.viol)} of {name} from "
                f"t={st.t_old!r} to {st.t!r} is not {what}: off by {q:.3g} "
                "relative")

    def etest(st, err, sc_, slack=1e-6, limit=1.):
        e = R.rms(err/sc_)
        noise = R.rms(1e-13*mag0[0]/sc_)
        out.hi("error_norm_of_accepted", e)
        if not e <= limit*(1 + slack) + noise:
            out.bad("error_test", f"{name}: step from t={st.t_old!r} to "
                    f"{st.t!r} was accepted with error norm {e:.6g}")

    mag0 = [1.]

    def check(h, st, t, y, tn, yn, hh, f0):
        mag = (np.abs(y).max(initial=0) + np.abs(yn).max(initial=0)
               + abs(hh)*np.abs(f0).max(initial=0)
               + abs(hh)*np.abs(f(tn, yn)).max(initial=0) + 1e-30)
        mag0[0] = mag
        checked[0] += 1
        # rounding of t itself
        tol = TOLY + 8*EPS*max(abs(t), abs(tn))/abs(hh)
        if g == "explicit" and name != "CKdisc":
            ref, err, K = R.explicit(name, f, t, y, hh, f0)
            if not _close(ref, yn, tol, mag):
                return report(st, "its formula", ref, yn, mag)
            etest(st, err, scale(y, yn))
        elif name == "CKdisc":
            ref, err, K = R.explicit(name, f, t, y, hh, f0)
            if _close(ref, yn, tol, mag):
                etest(st, err, scale(y, yn))
                out.mark("ckdisc_formula", "full")
                return
            for k, c in ((1, 3/5), (0, 1/5)):
                r2, e2 = R.ckdisc_fallback(k, f, t, y, hh/c, f0)
                if _close(r2, yn, tol*5, mag):
                    etest(st, e2, scale(y, yn))
                    out.mark("ckdisc_formula", f"fallback{k}")
                    return
            report(st, "one of its formulas", ref, yn, mag)
        elif g == "nystrom":
            m = y.size//2
            ref, err, K = R.nystrom(name, f, t, y, hh, f0[m:], spec["opts"])
            if not _close(ref, yn, tol, mag):
                return report(st, "its formula", ref, yn, mag)
            etest(st, err, scale(y, yn))
        elif g == "stab":
            ncall = st.c1 - st.c0
            best = None
            for m in range(2, min(ncall, 120) + 1):
                ref, err = R.rkc(f, t, y, hh, f0, m)
                if _close(ref, yn, tol*10, mag):
                    etest(st, err, scale(y, yn))
                    out.hi("rkc_stages", m)
                    return
                q = float((np.abs(ref - yn)/mag).max())
                if best is None or q < best[0]:
                    best = (q, ref)
            if ncall <= 120 and best is not None:
                report(st, "a Chebyshev step", best[1], yn, mag)
        elif g == "multi":
            if len(hist["t"]) < 1:
                return
            if w.fired:
                tol = max(tol, 1e-7)
            best, hit = None, None
            for k in range(1, min(len(hist["t"]), kmax) + 1):
                pr, ref, e, m2 = R.adams(f, hist, tn, k)
                if _close(ref, yn, tol*10, mag + m2):
                    # orders that agree cannot be told apart
                    sc_ = atol + rtol*.5*(np.abs(pr) + np.abs(y))
                    q = R.rms(e/sc_)
                    if hit is None or q < hit[0]:
                        hit = (q, k, e, sc_)
                    continue
                q = float((np.abs(ref - yn)/(mag + m2)).max())
                if best is None or q < best[0]:
                    best = (q, ref)
            if hit:
                out.mark("adams_order", hit[1])
                etest(st, hit[2], hit[3], 1e-4)
                return
            report(st, "an Adams step of any order", best[1], yn, mag)
        elif g == "implicit":
            sc_ = scale(y, yn)
            if state["chained"] is None:
                checked[0] -= 1
                return
            ref, err, K = state["chained"]
            floor = 1e-9*mag + 8*EPS*max(abs(t), abs(tn))*np.abs(
                K).max(initial=0)
            q = R.rms(np.maximum(np.abs(ref - yn) - floor, 0)/sc_)
            out.hi("stage_error_" + name, q)
            if str(spec["opts"].get("jac")).startswith("array"):
                # one Newton iteration is exact
                z = float(np.max(np.abs(ref - yn)/floor))
                out.hi("linear_stage_error_" + name, z)
                if z > (1e4 if spec["problem"]["fam"].startswith("dae")
                        else 100):
                    out.bad("linear", f"{name}: step of a linear problem from "
                            f"t={t!r} to {tn!r} is off by {z:.3g}e-9")
            lim = NEWTON[name]
            doubt = [0, 0]
            if lim < q < 1e3:
                doubt = chain.doubt(t, y, tn, sc_, ref, err)
                out.hi("newton_doubt_" + name, doubt[0])
            if not q <= lim + doubt[0]:
                out.bad("formula", f"{name}: step from t={t!r} to {tn!r} is "
                        f"{q:.3g} tolerances away from its formula")
            if not R.co(name)["filter_error"]:
                e = R.rms(err/sc_)
                out.hi("implicit_error_norm_" + name, e)
                lim = ELIM[name]
                if lim < e < 1e3:
                    lim += chain.doubt(t, y, tn, sc_, ref, err)[1]
                if not e <= lim:
                    out.bad("error_test", f"{name}: step from t={t!r} to "
                            f"{tn!r} was accepted with error norm {e:.4g}")

    def on_error(e, h):
        s = h.solver
        if not isinstance(e, (SimFault, SimInterrupt)) \
                or s.status not in ("running", "finished"):
            return False
        retried[0] += 1
        if s.t != h.t:             # the step was complete
            h.steps.append(drive.Step(h.t, h.y, s.t, np.array(
                s.y, copy=True), 0, 10**9, s))
            on_step(h)
            if s.t == p.tb:
                return False
        return retried[0] < max(60, len(sc["faults"]) + 5)

    h = drive.History()
    with recording_port(p):
        h = drive.run(spec, w, on_step=on_step, problem=p, h=h,
                      on_error=on_error,
                      step_budget=20_000, max_steps=400)
    out.history(h, name)
    out.world(w)
    out.add("steps_recomputed", checked[0])
    out.add("trials_aborted_and_repeated", retried[0])
    return out.done(w, checked[0])


NEWTON = {"HS2I": 5, "HS2Ia": 5, "KC3I": 5, "KC4I": 5, "KC4Ia": 5, "Kv3I": 5}
ELIM = {"KC3I": 5, "KC4I": 5, "KC4Ia": 5, "Kv3I": 5}
