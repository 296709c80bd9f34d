"""C13 - solutions of differential-algebraic problems stay on the constraint"""
from ..base import *  # noqa

PID = "C13"
QUICK, THOROUGH = 2400, 50000
DRY = True
RULE = ("semi-explicit and mixed index-1 DAEs (mass matrix diagonal, full, "
        "sparse; constraint scaled by 0.2 to 10 and rotated), consistent and "
        "inconsistent initial values, scalar and array tolerances; faults in "
        "the right hand side and Jacobian during the search for consistent "
        "initial values, in the first step and later; a run counts when a "
        "step was accepted and either a fault fired or the initial values "
        "were inconsistent")
ASSUME = ["the initial value search of the library keeps the differential "
          "components fixed; the algebraic ones are only determined up to "
          "the accuracy of scipy.optimize.root"]
# relative error of the slope at the start; the interpolants of KC and Kv are
# polynomials that only approximate it, the others use it
SLOPE = {"HS2I": .05, "HS2Ia": .05, "KC3I": .3, "Kv3I": .4, "KC4I": .8,
         "KC4Ia": .8}
LIM = {"HS2I": 40, "HS2Ia": 40, "KC3I": 40, "KC4I": 40, "KC4Ia": 40,
       "Kv3I": 40}


def generate(r, i):
    while True:
        spec = spec_for(r, i, names=methods.IMPLICIT,
                        fams=[methods.pick(r, ["daelog", "daelin"])])
        ps, o = spec["problem"], spec["opts"]
        if r.random() < .45:
            ps["inconsistent"] = methods.pick(r, [1e-9, 1e-4, .03, .3])
        if r.random() < .25 and not isinstance(o["atol"], list):
            n = problems.build(ps).n
            o["atol"] = [o["atol"]*10**r.uniform(-1, 1) for _ in range(n)]
        d = dry(spec)
        if d["outcome"] == "finished":
            break
    fs = []
    u = r.random()
    if u < .5:
        fs = gen_faults(r, ["nan", "nan1", "inf", "ninf"], d, nmax=2)
    elif u < .7:
        fs = gen_faults(r, ["kick", "big", "nan"], d, nmax=2)
        for f in fs:
            # a finite glitch in the initial values cannot be recognised
            f["k"] = max(f["k"], d["init"])
    if d["jac"] and r.random() < .4:
        fs += gen_faults(r, ["jnoise", "jscale", "jnan"], d, "jac", 1)
        fs[-1]["arg"] = r.uniform(.01, .1) if fs[-1]["kind"] == "jnoise" \
            else r.uniform(.9, 1.1)
    return {"spec": spec, "faults": fs, "dense": r.random() < .4}


def off(p, t, y, scale):
    """distance from the constraint, in units of the tolerance"""
    return float((np.abs(y - p.algebraic(t, y))/scale).max())


def execute(sc):
    out = Out(PID)
    spec = sc["spec"]
    name = spec["method"]
    p = problems.build(spec["problem"])
    rtol, atol = tol_of(spec)
    w = World(sc["faults"], budget=20_000, keep_log=True)
    glitch = ("big", "kick", "huge")
    hit = {"n": 0, "j": -99}
    checked = [0]

    def nglitch():
        return sum(w.fired.get(k, 0) for k in glitch)

    def on_step(h):
        st, s = h.steps[-1], h.solver
        j = len(h.steps)
        if not np.all(np.isfinite(st.y)):
            out.bad("nonfinite", f"{name}: step {j} is not finite")
            return
        if nglitch() > hit["n"]:
            hit["n"], hit["j"] = nglitch(), j
        if j - hit["j"] <= 1 or (hit["n"] and
                                 spec["opts"].get("jac") == "none"):
            return
        scale = atol + rtol*np.maximum(np.abs(st.y_old), np.abs(st.y)) \
            + 1e-13
        q = off(p, st.t, st.y, scale)
        out.hi("off_constraint_" + name, q)
        checked[0] += 1
        if not q < LIM[name]:
            out.bad("constraint", f"{name}: step {j} to t={st.t!r} ends "
                    f"{q:.3g} tolerances away from the constraint")
        q = drive.local_ratio(p, st, rtol, atol)
        out.hi("local_error_" + name, q)
        if not q < LOCAL[name]:
            out.bad("inaccurate", f"{name}: step {j} from t={st.t_old!r} to "
                    f"{st.t!r} has a local error of {q:.3g} tolerances")
        if j == 1 and not w.fired:
            # the derivative at the start is consistent too: it is the first
            # stage, and the slope of the interpolant
            so, hh = s.dense_output(), st.t - st.t_old
            x = st.t_old + hh*np.array([0., 1e-3, 2e-3])
            Y = [so(x).T, np.array([p.flow(st.t_old, st.y_old, _) for _ in x])]
            d0, d1 = ((4*_[1] - 3*_[0] - _[2])*500 for _ in Y)    # h y'
            q1 = float(np.abs(d0 - d1).max()/(np.abs(d1).max()
                                              + scale.max()))
            out.hi("start_slope_" + name, q1)
            d2 = np.abs(st.y_old - p.algebraic(st.t_old, st.y_old)).max()
            if not q1 < SLOPE[name] and d2 < 1e-3*np.abs(d1).max():
                out.bad("slope", f"{name}: the interpolant of the first step "
                        f"leaves the start with a slope that is {q1:.2g} off "
                        "the derivative on the constraint")
        if sc["dense"] and not hit["n"]:
            so = s.dense_output()
            x = st.t_old + .5*(st.t - st.t_old)
            y = so(x)
            # relative to what happens within the step
            d1 = np.abs(y - p.algebraic(x, y)).max()
            span = np.abs(st.y - st.y_old).max() + \
                abs(st.t - st.t_old)*np.abs(p.f(st.t, st.y)).max()
            qq = d1/(scale.max()*100 + .02*span)
            out.hi("off_constraint_dense_" + name, qq)

    h = drive.run(spec, w, on_step=on_step, problem=p, step_budget=20_000,
                  max_steps=1500)
    if h.solver is not None:
        y0 = h.y_start
        # differential components are those of the user
        du = np.abs(p.differential(y0) - p.differential(p.y0)).max()
        if not du <= 1e-12*(1 + np.abs(p.y0).max()):
            out.bad("initial_moved", f"{name}: a differential component of "
                    f"the initial state was changed by {du:.3g}")
        # the library accepts residuals np.allclose to 0, and otherwise
        # solves to its tolerance at least
        d0 = np.abs(y0 - p.algebraic(p.t0, y0)).max()
        out.hi("initial_off", float(d0))
        if not d0 < 1e-5 + 5*(np.max(atol) + rtol*np.abs(y0).max()):
            out.bad("initial_off", f"{name}: integration starts {d0:.3g} off "
                    "the constraint")
        if not np.array_equal(p.y0, problems.build(spec["problem"]).y0):
            out.bad("y0_modified", f"{name}: the array y0 was changed")
    nonfin = any(w.fired.get(k) for k in ("nan", "nan1", "inf", "ninf",
                                          "jnan", "big"))
    if isinstance(h.error, SimBudget):
        out.bad("endless", f"{name}: {h.error}")
    elif h.error is not None and not (nonfin and isinstance(
            h.error, (ValueError, np.linalg.LinAlgError, RuntimeError))):
        if not (w.fired and h.stage == "init"):
            out.bad("error", f"{name}: {type(h.error).__name__}: {h.error}")
    if not w.fired and h.status != "finished":
        out.bad("unfinished", f"{name}: ends '{h.status}': {h.message}")
    out.history(h, name)
    out.world(w)
    out.add("states_on_constraint", checked[0])
    out.mark("inconsistent_start", spec["problem"].get("inconsistent", 0))
    return out.done(w, h.steps and (w.fired or
                                    spec["problem"].get("inconsistent")))
