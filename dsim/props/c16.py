"""C16 - sensitivities are right or refused"""
from ..base import *  # noqa

PID = "C16"
QUICK, THOROUGH = 3000, 30000
DRY = False
RULE = ("sens_forward, sens_adjoint_end and sens_adjoint_int with all first "
        "order methods on problems whose solution is known as a function of "
        "the parameters (exact sensitivities by complex steps and Gauss "
        "quadrature), in both directions of time; non-finite answers and "
        "exceptions hit single calls or bursts of each of the user's "
        "functions; a run counts when a result came back, or a fault fired")
ASSUME = ["a non-finite answer of a function that is evaluated once for the "
          "result (g, dgdp and dgdy at the end) may be visible as a "
          "non-finite result; a finite wrong answer is never injected"]
REAL = ["extensisq.sensitivity", "extensisq solver classes and dense output",
        "scipy.integrate.solve_ivp", "numpy/scipy linear algebra"]
METH = ["BS5", "BS5", "Ts5", "CK5", "CKdisc", "Pr7", "Pr8", "Pr9", "CFMR7osc",
        "Me4", "SWAG", "SSV2stab", "HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia",
        "Kv3I", "BDF", "Radau", "LSODA", "RK45"]
SCIPY = {"BDF": 3, "Radau": 5, "LSODA": 5, "RK45": 5}
ROLES = ("fun", "jac", "dfdp", "g", "dgdp", "dgdy")


class Param:
    """y(t; p) in closed form, analytic in p"""

    def __init__(self, sc):
        g = np.random.default_rng(sc["pseed"])
        self.kind = sc["kind"]
        n = self.n = sc["n"]
        t0, tb = sc["t0"], sc["tb"]
        self.t0, self.tb = t0, tb
        d = 1. if tb > t0 else -1.
        if self.kind == "logistic":
            self.p = g.uniform(.3, 1.5, n)*g.choice([-1, 1], n)
            self.c0 = g.uniform(.1, .8, n)
        elif self.kind == "decay":        # y' = -a y + b (coupled forcing)
            self.p = np.concatenate([d*g.uniform(.3, 1.5, 1),
                                     g.normal(size=1)])
            self.c0 = g.normal(size=n)
            self.B = g.normal(size=n)
        elif self.kind == "cosmul":
            self.p = np.array([g.uniform(.3, 1.), g.uniform(.5, 2.)])
            self.c0 = g.normal(size=n)
        elif self.kind == "rot":          # coupled: rotation with damping
            n = self.n = 2
            self.p = np.array([g.uniform(.5, 2.), d*g.uniform(.1, .6),
                               g.normal()*.5])
            self.c0 = g.normal(size=2)
        elif self.kind == "cascade":      # nonlinear, one way coupling
            n = self.n = 2
            self.p = np.array([d*g.uniform(.2, 1.5), g.uniform(-1., 1.)])
            self.c0 = g.normal(size=2)
        m = self.p.size
        self.m = m
        if sc.get("pzero") and self.kind in ("decay", "rot"):
            self.p[-1] = 0.
        self.C = g.normal(size=(self.n, m))*.3*(g.random() < .6)
        if self.kind == "logistic":
            # stay away from the blow-up outside [0, 1]
            off = np.abs(self.C @ self.p)
            self.C = self.C*np.minimum(1., .05/np.maximum(off, 1e-9))[:, None]
        if sc.get("still") and self.kind == "decay":
            # nothing happens, but the sensitivities do
            if sc["pseed"] % 3 == 0:
                self.p[-1] = 0.
            self.c0 = self.p[1]/self.p[0]*self.B - self.C @ self.p
        self.a = g.normal(size=self.n)
        self.e = g.normal(size=m)
        self.y0 = self.c0 + self.C @ self.p
        # the user's parameters are those of the model in other units
        self.ps = np.array((sc.get("pscale") or [1.]*4)[:m])
        self.ps[self.p == 0] = 1.         # zero has no scale
        self.user_p = self.p*self.ps

    # -- the model ---------------------------------------------------------
    def fun(self, t, y, *p):
        k = self.kind
        if k == "logistic":
            return np.array(p)*y*(1 - y)
        if k == "decay":
            return -p[0]*y + p[1]*self.B
        if k == "cosmul":
            return p[0]*y*np.cos(p[1]*t)
        if k == "cascade":
            return np.array([-p[0]*y[0], p[1]*y[0]*y[1]])
        w, c, f = p
        return np.array([-c*y[0] - w*y[1], w*y[0] - c*y[1]]) + \
            f*np.array([np.cos(t)*0 + 1., -1.])

    def jac(self, t, y, *p):
        k = self.kind
        if k == "logistic":
            return np.diag(np.array(p)*(1 - 2*y))
        if k == "decay":
            return -p[0]*np.eye(self.n)
        if k == "cosmul":
            return p[0]*np.cos(p[1]*t)*np.eye(self.n)
        if k == "cascade":
            return np.array([[-p[0], 0.], [p[1]*y[1], p[1]*y[0]]])
        w, c, f = p
        return np.array([[-c, -w], [w, -c]])

    def dfdp(self, t, y, *p):
        k = self.kind
        if k == "logistic":
            return np.diag(y*(1 - y))
        if k == "decay":
            return np.stack([-y, self.B], axis=1)
        if k == "cosmul":
            return np.stack([y*np.cos(p[1]*t),
                             -p[0]*y*t*np.sin(p[1]*t)], axis=1)
        if k == "cascade":
            return np.array([[-y[0], 0.], [0., y[0]*y[1]]])
        return np.array([[-y[1], -y[0], 1.], [y[0], -y[1], -1.]])

    def g(self, t, y, *p):
        return np.array([np.sum(self.a*y**2) + np.sin(np.dot(self.e, p))
                         * (1 + t) + t*y[0]*p[0]])

    def dgdy(self, t, y, *p):
        r = 2*self.a*y
        r[0] += t*p[0]
        return r

    def dgdp(self, t, y, *p):
        r = np.cos(np.dot(self.e, p))*self.e*(1 + t)
        r[0] += t*y[0]
        return r

    # -- exact -------------------------------------------------------------
    def flow(self, t, y, te, p):
        dt = te - t
        k = self.kind
        if k == "logistic":
            e = np.exp(p*dt)
            return y*e/(1 + y*(e - 1))
        if k == "decay":
            e = np.exp(-p[0]*dt)
            return y*e + p[1]*self.B*(1 - e)/p[0]
        if k == "cosmul":
            return y*np.exp(p[0]/p[1]*(np.sin(p[1]*te) - np.sin(p[1]*t)))
        if k == "cascade":
            e = np.exp(-p[0]*dt)
            return np.array([y[0]*e, y[1]*np.exp(p[1]*y[0]*(1 - e)/p[0])])
        w, c, f = p
        A = np.array([[-c, -w], [w, -c]])
        b = f*np.array([1., -1.])
        ss = -np.linalg.solve(A, b)
        e, co, si = np.exp(-c*dt), np.cos(w*dt), np.sin(w*dt)
        R = e*np.array([[co, -si], [si, co]])
        return R @ (y - ss) + ss

    def sol(self, t, p):
        return self.flow(self.t0, self.c0 + self.C @ p, t, p)

    def cs(self, fun):
        """derivative by complex steps, one column per parameter"""
        cols = []
        for i in range(self.m):
            q = self.p.astype(complex)
            q[i] += 1e-30j
            cols.append(np.imag(fun(q))/1e-30)
        return np.stack(cols, axis=-1)

    def s_exact(self, t=None):
        t = self.tb if t is None else t
        return self.cs(lambda q: self.sol(t, q))

    def adjoint(self, t, what):
        """derivative of the function to the state at time t"""
        y = self.sol(t, self.p)
        r = np.empty(self.n)
        x, w = np.polynomial.legendre.leggauss(40)
        for i in range(self.n):
            yy = y.astype(complex)
            yy[i] += 1e-30j
            if what == "end":
                v = self.g(self.tb, self.flow(t, yy, self.tb, self.p),
                           *self.p)[0]
            else:
                v = 0
                for xi, wi in zip(x, w):
                    u = t + (self.tb - t)*(xi + 1)/2
                    v += wi*(self.tb - t)/2*self.g(
                        u, self.flow(t, yy, u, self.p), *self.p)[0]
            r[i] = np.imag(v)/1e-30
        return r

    def g_of(self, t, q):
        return self.g(t, self.sol(t, q), *q)[0]

    def g_end(self):
        return self.g_of(self.tb, self.p), \
            self.cs(lambda q: self.g_of(self.tb, q))

    def g_int(self):
        x, w = np.polynomial.legendre.leggauss(60)
        t = self.t0 + (self.tb - self.t0)*(x + 1)/2
        w = w*(self.tb - self.t0)/2

        def G(q):
            return sum(wi*self.g_of(ti, q) for ti, wi in zip(t, w))
        return G(self.p), self.cs(G)


def generate(r, i):
    name = METH[i % len(METH)]
    L = r.uniform(.5, 3.)
    t0 = methods.pick(r, [0., r.uniform(-2, 2)])
    if r.random() < .35:
        L = -L
    kinds = ["logistic", "decay", "cosmul", "cascade", "rot"]
    if name == "SSV2stab":
        kinds.pop()                 # made for real spectra
    order = SCIPY.get(name) or methods.ORDER[name]
    e = r.uniform(3, 4.5) if order <= 2 else r.uniform(4, 7)
    sc = {"method": name, "kind": methods.pick(r, kinds),
          "n": r.randrange(1, 4), "pseed": r.randrange(1 << 30),
          "t0": t0, "tb": t0 + L, "rtol": 10**-e,
          "atol": 10**-(e + r.uniform(0, 2)),
          "what": ("forward", "end", "int")[(i//len(METH)) % 3],
          "atol_array": r.random() < .3, "twice": r.random() < .3,
          "pzero": r.random() < .2, "as_list": r.random() < .3}
    k = i + i//len(METH)
    if k % 6 == 3:
        sc["what"] = "forward"
    if (r.random() < .3 or k % 6 == 3) and name != "SSV2stab":
        # (with a single mode and no transient, the first step of that method
        # can be the whole interval, at a zero of its error estimate)
        sc["still"] = True
        if k % 6 == 3 or r.random() < .5:
            sc["kind"] = "decay"
    if r.random() < (.8 if sc.get("still") else .4):
        lo, sg = (1, [methods.pick(r, [1, -1])]) if sc.get("still") \
            else (-5, [1, 1, -1])
        sc["pscale"] = [methods.pick(r, sg)*10**r.uniform(lo, 5)
                        for _ in range(4)]
    if sc["what"] == "forward":
        sc["dense_output"] = r.random() < .3
        sc["t_eval"] = r.randrange(0, 5) if r.random() < .3 else 0
        sc["approx_jac"] = r.random() < .5 and (
            name in ("BDF", "Radau", "LSODA") or name not in SCIPY
            and methods.group(name) == "implicit")
        roles = ROLES[:3]
    else:
        sc["sol_y"] = methods.pick(r, [None, None, "same", "BS5", "Pr8"])
        if sc["sol_y"]:
            u = r.random()
            if u < .15:
                sc["sol_part"] = r.uniform(.3, 1.3)
            elif u < .3 and not (name in SCIPY and sc["sol_y"] == "same"):
                sc["sol_nan"] = r.uniform(.2, .95)
        roles = ROLES
    fs = []
    if name == "LSODA":
        pass                       # compiled code of scipy is not on trial
    elif r.random() < .65:
        for _ in range(r.randrange(1, 4)):
            fs.append({"agent": 0, "role": methods.pick(r, roles),
                       "k": int(10**r.uniform(0, 2.5)) - 1,
                       "n": methods.pick(r, [1, 1, 1, 3, 10, -1]),
                       "kind": methods.pick(
                           r, (["nan", "nan", "inf"] if name not in SCIPY
                               else []) + ["raise", "interrupt"])})
    sc["faults"] = fs
    return sc


class Ports:
    def __init__(self, w, q, watch):
        self.w, self.q, self.watch = w, q, watch
        self.bad = []

    def __getattr__(self, role):
        if role not in ROLES:
            raise AttributeError(role)
        base = getattr(self.q, role)

        def call(t, y, *p):
            y_ = np.asarray(y)
            if not isinstance(y, np.ndarray) or y_.shape != (self.q.n,) \
                    or np.ndim(t) != 0 or len(p) != self.q.m:
                self.bad.append(f"{role} is called with t={t!r}, shape "
                                f"{y_.shape} and {len(p)} parameters")
            k, f = self.w.enter(0, role, t, y_)
            r = np.asarray(base(t, y, *(np.array(p)/self.q.ps)), dtype=float)
            if role in ("dfdp", "dgdp"):
                r = r/self.q.ps
            if f is not None:
                r = r.copy()
                r.flat[(f.get("i", 0)) % r.size] = \
                    np.nan if f["kind"] == "nan" else np.inf
            self.w.h.update(r.tobytes())
            if len(self.watch) < 3000:
                self.watch.append((r, r.copy()))
            return r
        call.__name__ = role
        return call


# error of a result in units of atol + rtol*size, by interpolation quality
TOL = {n: 100. for n in METH}
TOL["KC4Ia"] = TOL["HS2I"] = 200.


def execute(sc):
    import extensisq
    from scipy.integrate import solve_ivp
    out = Out(PID)
    name = sc["method"]
    q = Param(sc)
    klass = name if name in SCIPY else methods.cls(name)
    w = World(sc["faults"], budget=100_000, keep_log=True)
    watch = []
    P = Ports(w, q, watch)
    rtol, atol = sc["rtol"], sc["atol"]
    at = np.full(q.n, atol)*np.linspace(1, .3, q.n) if sc["atol_array"] \
        else atol
    args = {"t_span": (q.t0, q.tb), "y0": q.y0.copy(),
            "dy0dp": q.C/q.ps, "p": q.user_p.copy(), "atol": at}
    if sc["as_list"]:
        for k in ("y0", "p", "atol"):
            if isinstance(args[k], np.ndarray):
                args[k] = args[k].tolist()
    keep = {k: np.array(v, copy=True) for k, v in args.items()}
    what = sc["what"]

    def once():
        kw = dict(args, rtol=rtol, method=klass)
        if what == "forward":
            te = None
            if sc["t_eval"]:
                te = np.linspace(q.t0, q.tb, sc["t_eval"] + 1)[1:]
            return extensisq.sens_forward(
                P.fun, kw.pop("t_span"), kw.pop("y0"), P.jac, P.dfdp,
                kw.pop("dy0dp"), kw.pop("p"), t_eval=te,
                dense_output=sc["dense_output"],
                use_approx_jac=sc["approx_jac"], **kw)
        sy = sc.get("sol_y")
        if sy is not None:
            m2 = klass if sy == "same" else methods.cls(sy)
            was, w.enabled = w.enabled, False
            # the solution that is handed in may end too early, because it
            # was disturbed or stopped, or be longer than needed
            to = q.t0 + (q.tb - q.t0)*sc.get("sol_part", 1.)
            if sc.get("sol_nan"):
                x = q.t0 + (q.tb - q.t0)*sc["sol_nan"]

                def f(t, y, *p):
                    r = P.fun(t, y, *p)
                    return r*np.nan if (t - x)*(q.tb - q.t0) > 0 else r
            else:
                f = P.fun
            sy = solve_ivp(f, (q.t0, to), q.y0, method=m2, rtol=rtol,
                           atol=at, dense_output=True, args=tuple(q.user_p))
            short[0] = (sy.sol.ts[-1] - q.tb)*(q.tb - q.t0) < 0
            w.enabled = was
            kw["sol_y"] = sy
            given.append((sy, sy.t.copy(), sy.y.copy()))
        f = extensisq.sens_adjoint_end if what == "end" \
            else extensisq.sens_adjoint_int
        if sc["atol_array"]:
            kw["atol_adj"] = at
        else:
            kw["atol_adj"] = atol
        kw["atol_quad"] = atol/abs(q.ps) if sc.get("pscale") else atol
        return f(P.fun, kw.pop("t_span"), kw.pop("y0"), P.jac, P.dfdp,
                 kw.pop("dy0dp"), kw.pop("p"), P.g, P.dgdp, P.dgdy, **kw)

    given = []
    short = [False]
    res = err = None
    try:
        res = once()
    except (SimBudget, SimFault, SimInterrupt, Exception) as e:
        err = e
    nonfin = w.fired.get("nan") or w.fired.get("inf")
    threw = w.fired.get("raise") or w.fired.get("interrupt")
    if short[0]:
        # the answer may only be a refusal
        out.add("short_solution_given")
        if err is None:
            out.bad("extrapolated", f"{name}: {what} used a solution up to "
                    f"{given[-1][1][-1]!r} for the interval {q.t0!r}.."
                    f"{q.tb!r}")
        elif not isinstance(err, (ValueError, RuntimeError)) and not threw \
                and not nonfin:
            out.bad("error", f"{name}: {what}: {err!r}")
        sc = dict(sc, twice=False)
    elif err is None:
        check(sc, q, res, what, rtol, atol, nonfin, out, name)
        for sy, t, y in given:
            if not (np.array_equal(sy.t, t) and np.array_equal(sy.y, y)):
                out.bad("sol_y_changed", f"{name}: {what} changed the "
                        "solution that was handed in")
            if what != "forward" and res.sol_y is not sy:
                out.bad("sol_y_ignored", f"{name}: {what} does not return "
                        "the solution that was handed in")
    elif isinstance(err, (SimFault, SimInterrupt)):
        if err is not w.poison:
            out.bad("other_exception", f"{name}: {err!r}")
    elif isinstance(err, SimBudget):
        out.bad("endless", f"{name}: {what}: {err}")
    elif threw and isinstance(err, AssertionError):
        # the documented answer to an exception in the first, trial call
        if "signature" not in str(err):
            out.bad("error", f"{name}: {what}: {err!r}")
    elif name == "SSV2stab" and "not converged" in str(err):
        # lambda starts at zero, where the power iteration of this method
        # has no scale for its differences: a refusal
        out.add("power_iteration_refused")
    elif not (nonfin and isinstance(err, (RuntimeError, ValueError,
                                          np.linalg.LinAlgError))):
        out.bad("error", f"{name}: {what}: {type(err).__name__}: {err}")
    if threw and err is None:
        out.bad("swallowed", f"{name}: {what} returned a result although an "
                "exception was raised in a callback")
    for k, v in keep.items():
        if not np.array_equal(np.asarray(args[k]), v):
            out.bad("argument_changed", f"{name}: {what} changed {k}")
    for a, b in watch:
        if not np.array_equal(a, b, equal_nan=True):
            out.bad("answer_changed", f"{name}: {what} changed an array "
                    "that a callback returned")
            break
    for m in P.bad[:1]:
        out.bad("calling", f"{name}: {what}: {m}")
    if sc["twice"]:
        # after whatever happened: the same call, undisturbed
        w.enabled = False
        w.refill()
        try:
            r1 = once()
            r2 = once()
            check(sc, q, r1, what, rtol, atol, False, out, name)
            for a, b in zip(r1[:2], r2[:2]):
                if not np.array_equal(a, b):
                    out.bad("repeat", f"{name}: {what} gives another result "
                            "in the second call")
        except Exception as e:
            if not (name == "SSV2stab" and "not converged" in str(e)):
                out.bad("after_failure", f"{name}: {what} after a "
                        f"disturbed call: {type(e).__name__}: {e}")
    out.mark("runs_by_method", name)
    out.mark("what", what)
    out.mark("outcomes", "result" if err is None else type(err).__name__)
    out.add("sim_time", abs(q.tb - q.t0))
    out.world(w)
    return out.done(w, err is None or w.fired)


def check(sc, q, res, what, rtol, atol, nonfin, out, name):
    n = q.n
    if what == "forward":
        pairs = [("yf", res.yf, q.sol(q.tb, q.p), 1.),
                 ("sensf", res.sensf, q.s_exact()/q.ps, q.ps)]
        once = False
        sol = res.sol
        # the history of the combined problem
        ts = list(zip(sol.t, sol.y.T))[::max(1, sol.t.size//4)]
        if sc["dense_output"]:
            ts += [(t, sol.sol(t)) for t in
                   q.t0 + (q.tb - q.t0)*np.array([0., .13, .5, .77, 1.])]
        for t, v in ts:
            pairs.append((f"y at {t!r}", v[:n], q.sol(t, q.p), 1.))
            pairs.append((f"dy/dp at {t!r}",
                          v[n:].reshape(n, q.m, order="F"),
                          q.s_exact(t)/q.ps, q.ps))
        if sc["t_eval"] and not np.array_equal(sol.t, np.linspace(
                q.t0, q.tb, sc["t_eval"] + 1)[1:]):
            out.bad("t_eval", f"{name}: output at {sol.t}")
    else:
        gx, sx = q.g_end() if what == "end" else q.g_int()
        val = res.gf if what == "end" else res.G
        pairs = [("g", np.ravel(val), np.array([gx]), 1.),
                 ("sens", res.sens, sx/q.ps, q.ps)]
        once = True
        bw = res.sol_bw
        k = bw.t.size//2
        for t, v in ((bw.t[k], bw.y[:, k]), (bw.t[-1], bw.y[:, -1])):
            pairs.append((f"adjoint at {t!r}", v[:n], q.adjoint(t, what), 1.))
    for label, a, b, unit in pairs:
        a = np.asarray(a)
        if a.shape != b.shape:
            out.bad("shape", f"{name}: {what}: {label} has shape {a.shape}, "
                    f"not {b.shape}")
            continue
        if not np.all(np.isfinite(a)):
            # interpolated output uses the slope at the end of the step
            if not (nonfin and (once or sc["t_eval"] or sc["dense_output"])):
                out.bad("nonfinite", f"{name}: {what}: {label} = {a}")
            continue
        # everything that contributes to the result sets the scale
        a, b = a*unit, b*unit
        size = 1 + np.abs(b).max() + np.abs(q.y0).max() + \
            np.abs(q.a).max() + np.abs(q.e).max() + np.abs(q.C).max()
        e = np.abs(a - b).max()/(atol + rtol*size)
        lab = label.split(" at")[0].replace("/", "")
        out.hi(f"error_{what}_{lab}_" + name, float(e))
        if not e < TOL[name]:
            out.bad("inaccurate", f"{name}: {what}: {label} is off by {e:.3g} "
                    "tolerances")
