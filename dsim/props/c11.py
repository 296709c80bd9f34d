"""C11 - dense output: covers the step, joins the states, and is the
documented interpolant in between"""
from ..base import *  # noqa
from .. import refmodel as R

PID = "C11"
QUICK, THOROUGH = 3000, 50000
DRY = True
RULE = ("all methods and interpolants, also of subclasses that use those of "
        "the base classes; the interpolant of accepted steps is "
        "requested right after the step (also twice), evaluated at both ends "
        "and inside, and compared with an independent reference of the "
        "published interpolant built from the accepted state alone; value "
        "faults, exceptions and rejections hit the steps before; a run counts "
        "when at least one interpolant was compared with its reference")
ASSUME = ["interpolant 1 of Fi5N is excluded: it replaces the accepted state "
          "by design", "the reference interpolants use the published "
          "coefficients pinned in dsim/coeffs.json",
          "SWAG: local accuracy instead of the formula",
          "very stiff problems: the ends only, because what the Newton "
          "iteration leaves is amplified in the derivative"]
# in tolerances: what the stopping rule of the Newton iteration leaves, as
# amplified by the interpolant (measured worst case times 5 or more)
NEWTON = {"HS2I": 12, "HS2Ia": 18, "KC3I": 18, "KC4I": 40, "KC4Ia": 150,
          "Kv3I": 10}
SWAGLIM = 60.


def generate(r, i):
    name = methods.ALL[i % 21]
    if name == "CKdisc" and r.random() < .7:
        spec = methods.gen_spec(r, method=name, fams=["switch"])
        spec["problem"]["nsw"] = r.randrange(1, 5)
    else:
        spec = methods.gen_spec(r, method=name)
    if name in methods.BASEP and r.random() < .25:
        spec["nop"] = True
    sc = {"spec": spec, "faults": [], "every": methods.pick(r, [1, 1, 2, 4]),
          "x": [round(r.random(), 6) for _ in range(3)]}
    if r.random() < .5:
        d = dry(spec)
        kinds = ["nan", "nan1", "inf", "big", "kick", "raise", "raise"]
        if name == "SSV2stab":
            kinds = ["nan", "inf", "kick", "raise"]
        sc["faults"] = gen_faults(r, kinds, d, nmax=2)
    if r.random() < .5:
        # exceptions inside requests for the interpolant, which are repeated
        sc["dense_fail"] = [[r.randrange(1, 12), r.randrange(0, 5)]
                            for _ in range(r.randrange(1, 4))]
    return sc


def execute(sc):
    out = Out(PID)
    spec = sc["spec"]
    name = spec["method"]
    p = problems.build(spec["problem"])
    w = World(sc["faults"], budget=20_000, keep_log=True)
    rtol, atol = tol_of(spec)
    rtol = min(max(rtol, 1e-15), .1)
    g = methods.group(name)
    interp = spec["opts"].get("interpolant")
    compared = [0]
    retries = [0]
    st8 = {"fired": 0, "glitch": 0, "hit": -9}

    dae = p.M is not None and np.linalg.matrix_rank(p.M) < p.n
    # (the slope of an algebraic variable is less accurate than its value)
    newton = NEWTON.get(name, 0)*(5 if dae else 1)
    dense_fail = sc.get("dense_fail", [])

    def values():
        return sum(v for k, v in w.fired.items() if k != "raise")

    def ask(s, n):
        """the interpolant; requests that fail are repeated"""
        role = w.plan.setdefault((0, "fun"), [])
        for a, k in dense_fail:
            if a == n:
                role.append(("dense", {"kind": "raise", "role": "fun",
                                       "k": w.counts.get((0, "fun"), 0) + k}))
        try:
            for _ in range(8):
                try:
                    return s.dense_output()
                except SimFault:
                    out.add("interpolant_requests_failed", 1)
            return None
        finally:
            role[:] = [f for f in role if f[0] != "dense"]

    chain = R.EsdirkChain(name, p, lambda t, y: initial_slope(
        p, t, y, answer_at(chain.port, p, t, y)))

    def on_error(e, h):
        retries[0] += 1
        return isinstance(e, SimFault) and retries[0] < 30

    def glitches():
        return sum(w.fired.get(k, 0) for k in ("big", "kick", "huge"))

    def on_step(h):
        s, st = h.solver, h.steps[-1]
        n = len(h.steps)
        dirty = False
        if glitches() > st8["glitch"]:
            st8["glitch"], st8["hit"], dirty = glitches(), n, True
        if name == "SSV2stab" and n - st8["hit"] == 1:
            dirty = True        # the same state asked about before and after
        if st8["glitch"] and (g == "multi" or
                              spec["opts"].get("jac") == "none"):
            dirty = True
        if st8["glitch"] and dae:
            dirty = True        # lasts in the slope of algebraic variables
        chained = None
        if g == "implicit":
            if dirty:
                chain.lose()
            chain.port = h.port
            chained = chain.step(
                st.t_old, st.y_old, st.t, st.y, atol + rtol*np.maximum(
                    np.abs(st.y_old), np.abs(st.y)))
        if n % sc["every"]:
            return
        b4 = values()
        so = ask(s, n)
        if so is None:
            return
        t, tn, y, yn = st.t_old, st.t, st.y_old, st.y
        hh = tn - t
        if {so.t_min, so.t_max} != {t, tn} or so.t_min > so.t_max:
            out.bad("interval", f"{name}: interpolant of the step "
                    f"{t!r}..{tn!r} says {so.t_min!r}..{so.t_max!r}")
        f0 = answer_at(h.port, p, t, y)
        fn = answer_at(h.port, p, tn, yn)
        if values() > b4 or not (
                np.all(np.isfinite(f0)) and np.all(np.isfinite(fn))):
            return               # a fault hit the interpolant itself
        xs = [0., 1.] + sc["x"]
        ts = [t, tn] + [t + x*hh for x in sc["x"]]
        ts = np.clip(ts, min(t, tn), max(t, tn))
        V = so(np.array(ts))
        one = [so(tt) for tt in ts]
        if V.shape != (p.n, len(ts)) or any(v.shape != (p.n,) for v in one):
            out.bad("shape", f"{name}: interpolant has shape {V.shape} and "
                    f"{one[0].shape}")
            return
        mag = (np.abs(y).max(initial=0) + np.abs(yn).max(initial=0)
               + abs(hh)*np.abs(f0).max(initial=0)
               + abs(hh)*np.abs(fn).max(initial=0) + 1e-30)
        # rounding: of t within the step, and of differences over h
        rnd = 8*EPS*max(abs(t), abs(tn))/abs(hh)
        if rnd > 1e-4:
            return
        tol = (1e-9 + 4*rnd)*mag
        if g == "nystrom":
            tol = tol + 200*EPS*np.abs(yn).max(initial=0)/abs(hh)
        if st8["glitch"]:
            tol = tol + 1e-11*getattr(w, "biggest", 0.)
        for v, u, tt in zip(V.T, one, ts):
            if not np.all(np.abs(v - u) <= 1e-3*tol + 64*EPS*mag):
                out.bad("scalar", f"{name}: interpolant at t={tt!r} gives "
                        f"{v} in an array and {u} alone")
                return
        if dirty:
            return
        for k, (tt, want) in enumerate(((t, y), (tn, yn))):
            if not np.all(np.abs(one[k] - want) <= tol):
                out.bad("ends", f"{name} ({interp}): interpolant of "
                        f"{t!r}..{tn!r} is {np.abs(one[k]-want).max():.3g} "
                        f"away from the accepted state at t={tt!r}")
                return
        again = ask(s, 0)
        if again is not None and values() == b4 and \
                again(np.array(ts)).tobytes() != V.tobytes():
            out.bad("again", f"{name}: asked again the interpolant gives "
                    "other values")
        scale = atol + rtol*np.maximum(np.abs(y), np.abs(yn))
        refs = reference(name, p, t, y, yn, hh, f0, fn, chained, spec)
        if refs is None:
            return
        compared[0] += 1
        if refs == "flow":
            if not (p.exact and p.smooth):
                return
            for x, v in zip(xs[2:], one[2:]):
                e = p.flow(t, y, t + x*hh)
                q = R.rms(np.maximum(np.abs(v - e) - tol, 0)/scale)
                out.hi("interior_error_" + name, q)
                if not q <= SWAGLIM:
                    out.bad("inside", f"{name}: interpolant of {t!r}..{tn!r} "
                            f"at x={x}: {q:.3g} tolerances from the solution")
            return
        worst = []
        for ref in refs:
            bad = None
            for x, v in zip(xs, one):
                d = np.abs(v - ref(x))
                if g == "implicit":
                    q = R.rms(np.maximum(d - 10*tol, 0)/scale)
                    out.hi("interpolant_error_" + name, q)
                    ok = q <= newton
                else:
                    q = float((d/tol).max())
                    ok = q <= 1
                if not ok:
                    bad = (x, q)
                    break
            if bad is None:
                return
            worst.append(bad)
        out.bad("inside", f"{name} ({interp}): interpolant of {t!r}..{tn!r} "
                f"is not the documented one: at x={worst[0][0]} off by "
                f"{worst[0][1]:.3g} allowances")

    with recording_port(p):
        h = drive.run(spec, w, on_step=on_step, on_error=on_error, problem=p,
                      step_budget=20_000, max_steps=400)
    out.history(h, name)
    out.mark("interpolants", f"{name}/{interp}")
    out.world(w)
    out.add("interpolants_compared", compared[0])
    return out.done(w, compared[0])


def reference(name, p, t, y, yn, h, f0, fn, chained, spec):
    g = methods.group(name)
    opts = spec["opts"]
    it = opts.get("interpolant")
    f = p.f
    if g == "multi":
        return "flow"
    if g == "stab":
        return [R.cubic(h, y, yn, f0, fn)]
    if g == "nystrom":
        m = y.size//2
        ref, err, K = R.nystrom(name, f, t, y, h, f0[m:], opts)
        K[-1] = fn[m:]
        if spec.get("nop"):
            return [R.quintic(h, y, yn, f0[m:], fn[m:])]
        return [R.dense(name, it, f, t, y, h, yn, K, fn)]
    if g == "explicit":
        ref, err, K = R.explicit(name, f, t, y, h, f0)
        K[-1] = fn
        if spec.get("nop"):
            return [R.cubic(h, y, yn, f0, fn)]
        refs = [R.dense(name, it, f, t, y, h, yn, K, fn)]
        if name == "CKdisc":
            refs.append(R.cubic(h, y, yn, f0, fn))
        return refs
    if chained is None or p.spec.get("stiff"):
        return None
    K = chained[2]
    if spec.get("nop"):
        return [R.cubic(h, y, yn, K[0], K[-1])]
    return [R.dense(name, it, f, t, y, h, yn, K, K[-1])]
