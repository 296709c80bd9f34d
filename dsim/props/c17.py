"""C17 - equivalent descriptions of a problem give the same run"""
from ..base import *  # noqa

PID = "C17"
QUICK, THOROUGH = 3400, 50000
DRY = True
RULE = ("the same problem is described twice: time mirrored, states or time in "
        "other units (powers of two), the complex plane turned by 90 degrees, "
        "vectorized, lists or integers instead of arrays, the mass matrix or "
        "Jacobian in another form, equations combined with each other, components in another order, real numbers "
        "as complex ones; both runs get the same answers and the same faults "
        "at the same calls; exact transformations must give the same history "
        "bit by bit, inexact ones the same up to rounding; a run counts when "
        "two steps were accepted")
ASSUME = ["rounding may be amplified by a step size decision on the edge: a "
          "difference under an inexact transformation only counts if no run "
          "with 12 other roundings of the derivative differs as much"]
EXACT = ("mirror", "yscale", "tscale", "turn", "columns", "lists", "atol",
         "jaclist", "mdense")
UNITS = ("mirror", "yscale", "tscale", "turn")
BITWISE = ("explicit", "nystrom")          # elementary operations only
LOOSE = ("complex", "permute", "jacsparse", "meye", "msparse", "mrows",
         "mscale")


def inexact(kind, g):
    # (h**2 in Nystrom methods does not scale exactly with time)
    return kind in LOOSE or (kind in UNITS and g not in BITWISE) or (
        kind == "tscale" and g == "nystrom")


def generate(r, i):
    name = methods.ALL[i % 21]
    g = methods.group(name)
    kinds = ["mirror", "mirror", "yscale", "yscale", "tscale", "tscale",
             "turn", "columns", "columns", "lists", "atol", "complex",
             "permute"]
    if g == "implicit":
        kinds += ["jaclist", "jacsparse", "meye", "mdense", "msparse",
                  "mrows", "mscale", "mscale"]
    kind = methods.pick(r, kinds)
    fams, cplx = None, None
    if kind == "turn":
        fams, cplx = {"nystrom": ["osc2"], "stab": ["heat"]}.get(
            g, ["lin", "lin", "cosmul"]), True
    if kind in ("complex", "permute"):
        cplx = False
    if kind in ("mdense", "msparse"):
        fams = ["mass", "daelog", "daelin"]
    if kind in ("mrows", "mscale"):
        fams = ["mass", "mass", "daelog", "daelin", "lin", "cosmul", "twist"]
    if kind == "meye":
        fams = ["lin", "logistic", "cosmul", "twist", "bern", "heat"]
    if kind == "complex" and g == "implicit":
        # (inconsistent initial values of DAEs have to be real)
        fams = ["lin", "logistic", "cosmul", "twist", "bern", "mass", "heat"]
    if kind in ("complex", "permute") and g in ("explicit", "multi"):
        fams = ["lin", "logistic", "cosmul", "twist", "bern"]
    loose = inexact(kind, g)
    spec = methods.gen_spec(r, method=name, fams=fams, cplx=cplx, alias=False,
                            tol=10**r.uniform(-5, -2) if loose else None)
    if kind == "turn" and not spec["problem"].get("cplx"):
        kind = "mirror"
    o = spec["opts"]
    ps = spec["problem"]
    if kind != "columns":
        o.pop("vectorized", None)
    else:
        o["vectorized"] = True
    if kind == "atol":
        o["atol"] = o["atol"] if not isinstance(o["atol"], list) else \
            o["atol"][0]
    if kind == "yscale" or loose or (kind == "tscale" and g == "nystrom"):
        # the formula for the first step combines values of different units,
        # and takes differences that amplify rounding
        L = abs(ps["tb"] - ps["t0"])
        o["first_step"] = L*10**r.uniform(-3, -1)
    if kind == "complex" and g == "stab":
        kind = "permute"                       # real problems only
    if kind == "mirror" and o.get("jac") == "none":
        # the sign of a difference step follows the derivative
        o["jac"] = "call"
        o.pop("jac_sparsity", None)
    if kind in ("jaclist", "jacsparse"):
        o["jac"] = methods.pick(r, ["call", "array"] if ps["fam"] in (
            "lin", "heat", "expo", "const", "mass", "daelin") else ["call"])
        o.pop("jac_sparsity", None)
        if kind == "jacsparse" and ps.get("cplx"):
            kind = "jaclist"
    if kind == "permute":
        # another order of columns can need another number of evaluations
        o.pop("jac_sparsity", None)
        if o.get("jac", "").endswith("sparse"):
            o["jac"] = "call"
    if kind in ("mrows", "mscale"):
        # (differences take steps that depend on the size of the answers)
        o["jac"] = methods.pick(r, ["call", "array"] if ps["fam"] in (
            "lin", "mass", "daelin") else ["call"])
        o.pop("jac_sparsity", None)
    if kind == "complex" and "sparse" in o.get("jac", ""):
        o["jac"] = "call"
    if kind in ("mdense", "msparse"):
        ps["mform"] = "full" if kind == "mdense" else "diag2"
    sc = {"spec": spec, "kind": kind, "faults": [],
          "arg": methods.pick(r, [-1, 1, 1])*r.randrange(1, 12),
          "perm": r.randrange(1000), "dense": r.random() < .5}
    if kind == "mscale":
        sc["arg"] *= -4
    if kind == "mrows":
        ps.pop("ascale", None)      # would be lost in rounding
    if kind in ("mrows", "mscale") and ps["fam"][:3] == "dae":
        # (the search for consistent values can take another number of calls)
        return sc
    if r.random() < .45 and not (kind == "permute" and o.get("jac") == "none"):
        # (differences in another order can need more evaluations)
        d = dry(spec)
        sc["faults"] = gen_faults(r, ["nan", "raise", "raise"] + (
            [] if loose else ["inf", "kick", "big"]), d, nmax=2)
        if d["jac"] and r.random() < .4:
            sc["faults"] += gen_faults(r, ["jscale", "jnoise", "raise"], d,
                                       "jac", 1)
    return sc


class Ident:
    """the transformation that changes nothing"""
    def __init__(self, sc, p):
        self.sc, self.p = sc, p
        g = methods.group(sc["spec"]["method"])
        self.half = p.n//2 if g == "nystrom" else p.n
        self.exact = not inexact(sc["kind"], g)

    def vel(self, y, c):
        """velocities of a second order problem times c"""
        if self.half == self.p.n:
            return y
        z = np.array(y, copy=True)
        z[self.half:] *= c
        return z

    def apply(self, args, o, port):
        return args, o

    def t(self, t):
        return t

    def there(self, t):
        return t

    def y(self, y):
        return y


class Mirror(Ident):
    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        o = dict(o)
        jac = o.get("jac")
        if callable(jac):
            def mjac(t, y):
                J = jac(-t, y)
                return [[-a for a in row] for row in J] \
                    if isinstance(J, list) else -J
            o["jac"] = mjac
        elif jac is not None:
            o["jac"] = -jac
        rho = o.get("rho_jac")
        if rho is not None:
            o["rho_jac"] = lambda t, y: rho(-t, y)
        return (lambda t, y: self.vel(-np.asarray(fun(-t, self.vel(y, -1.))),
                                      -1.), -t0, self.vel(y0, -1.), -tb), o

    def t(self, t):
        return -t

    there = t

    def y(self, y):
        return self.vel(y, -1.)


class YScale(Ident):
    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        c = self.c = 2.**self.sc["arg"]
        o = dict(o, atol=o["atol"]*c)
        if callable(o.get("jac")):
            jac = o["jac"]
            o["jac"] = lambda t, y: jac(t, y/c)
        if o.get("rho_jac") is not None:
            rho = o["rho_jac"]
            o["rho_jac"] = lambda t, y: rho(t, y/c)
        return (lambda t, y: np.asarray(fun(t, y/c))*c, t0, y0*c, tb), o

    def y(self, y):
        return y/self.c


class TScale(Ident):
    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        c = self.c = 2.**self.sc["arg"]
        o = dict(o)
        if self.half < self.p.n:
            o["atol"] = self.vel(np.zeros(self.p.n) + o["atol"], 1/c)
        for k in ("first_step", "max_step"):
            if o.get(k) is not None:
                o[k] = o[k]*c
        jac = o.get("jac")
        if callable(jac):
            def sjac(t, y):
                J = jac(t/c, y)
                return [[a/c for a in row] for row in J] \
                    if isinstance(J, list) else J/c
            o["jac"] = sjac
        elif jac is not None:
            o["jac"] = jac/c
        if o.get("rho_jac") is not None:
            rho = o["rho_jac"]
            o["rho_jac"] = lambda t, y: rho(t/c, y)/c
        return (lambda t, y: self.vel(np.asarray(fun(t/c, self.vel(y, c)))/c,
                                      1/c), t0*c, self.vel(y0, 1/c), tb*c), o

    def t(self, t):
        return t/self.c

    def there(self, t):
        return t*self.c

    def y(self, y):
        return self.vel(y, self.c)


class Turn(Ident):
    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        o = dict(o)
        if callable(o.get("jac")):
            jac = o["jac"]
            o["jac"] = lambda t, y: jac(t, left(y, -1))
        return (lambda t, y: left(np.asarray(fun(t, left(y, -1))), 1), t0,
                left(y0, 1), tb), o

    def y(self, y):
        return left(y, -1)


def left(y, k):
    """times 1j (k=1) or -1j (k=-1), exactly"""
    z = np.empty(y.shape, complex)
    z.real, z.imag = (-y.imag, y.real) if k > 0 else (y.imag, -y.real)
    return z


class Columns(Ident):
    """the base run is not vectorized, this one is"""
    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        port.vectorized = False

        def cols(t, y):
            if y.ndim != 2:
                port.contract.append(f"vectorized: y has shape {y.shape}")
                return fun(t, y)
            return np.stack([np.asarray(fun(t, y[:, j].copy()))
                             for j in range(y.shape[1])], axis=1)
        return (cols, t0, y0, tb), dict(o, vectorized=True)


class Lists(Ident):
    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        o = dict(o)
        if isinstance(o["atol"], np.ndarray):
            o["atol"] = o["atol"].tolist()
        nys = methods.group(self.sc["spec"]["method"]) == "nystrom"
        f = fun if nys else lambda t, y: np.asarray(fun(t, y)).tolist()
        return (f, int(t0) if t0 == int(t0) else t0, y0.tolist(),
                int(tb) if tb == int(tb) else tb), o


class Atol(Ident):
    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        return args, dict(o, atol=np.full(y0.size, o["atol"]))


class JacList(Ident):
    def apply(self, args, o, port):
        jac = o["jac"]
        if callable(jac):
            return args, dict(o, jac=lambda t, y: jac(t, y).tolist())
        return args, dict(o, jac=jac.tolist())


class JacSparse(Ident):
    def apply(self, args, o, port):
        from scipy.sparse import csr_array
        jac = o["jac"]
        if callable(jac):
            return args, dict(o, jac=lambda t, y: csr_array(jac(t, y)))
        return args, dict(o, jac=csr_array(jac))


class MEye(Ident):
    def apply(self, args, o, port):
        n = args[2].size
        return args, dict(o, M=np.ones(n) if self.sc["perm"] % 2 else
                          np.eye(n))


class MRows(Ident):
    """the equations combined: P M y' = P f"""
    def matrix(self, n):
        g = np.random.default_rng(self.sc["perm"])
        return np.linalg.qr(g.normal(size=(n, n)))[0] * \
            2.**self.sc["arg"] + np.diag(g.uniform(0, .3, n)*2.**self.sc[
                "arg"])

    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        o = dict(o)
        P, M, jac = self.matrix(y0.size), o.get("M"), o["jac"]
        if M is None:
            M = np.eye(y0.size)
        elif not isinstance(M, np.ndarray):
            M = M.toarray()
        elif M.ndim == 1:
            M = np.diag(M)
        o["M"] = P @ M
        o["jac"] = (lambda t, y: P @ jac(t, y)) if callable(jac) else P @ jac
        return (lambda t, y: P @ np.asarray(fun(t, y)), t0, y0, tb), o


class MScale(MRows):
    """the equations in other units"""
    def matrix(self, n):
        return np.eye(n)*2.**self.sc["arg"]


class MSparse(Ident):
    def apply(self, args, o, port):
        from scipy.sparse import csc_array
        return args, dict(o, M=csc_array(o["M"]))


class MDense(Ident):
    def apply(self, args, o, port):
        return args, dict(o, M=o["M"].tolist())


class Complex(Ident):
    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        o = dict(o)
        if callable(o.get("jac")):
            jac = o["jac"]
            o["jac"] = lambda t, y: jac(t, np.ascontiguousarray(y.real))
        if o.get("rho_jac") is not None:
            rho = o["rho_jac"]
            o["rho_jac"] = lambda t, y: rho(t, np.ascontiguousarray(y.real))
        return (lambda t, y: np.asarray(fun(t, np.ascontiguousarray(
            y.real))) + 0j, t0, y0 + 0j, tb), o

    def y(self, y):
        return np.ascontiguousarray(np.real(y))


class Permute(Ident):
    def apply(self, args, o, port):
        fun, t0, y0, tb = args
        n = y0.size
        g = np.random.default_rng(self.sc["perm"])
        if methods.group(self.sc["spec"]["method"]) == "nystrom":
            q = g.permutation(n//2)
            q = np.concatenate([q, q + n//2])
        else:
            q = g.permutation(n)
        self.inv = inv = np.argsort(q)
        o = dict(o)
        if isinstance(o["atol"], np.ndarray):
            o["atol"] = o["atol"][q]
        jac = o.get("jac")
        if callable(jac):
            o["jac"] = lambda t, y: np.asarray(
                jac(t, y[inv]))[np.ix_(q, q)]
        elif jac is not None:
            o["jac"] = np.asarray(jac)[np.ix_(q, q)]
        if o.get("jac_sparsity") is not None:
            o["jac_sparsity"] = o["jac_sparsity"][np.ix_(q, q)]
        M = o.get("M")
        if M is not None:
            if not isinstance(M, np.ndarray):
                o["M"] = type(M)(M.toarray()[np.ix_(q, q)])
            else:
                o["M"] = M[q] if M.ndim == 1 else M[np.ix_(q, q)]
        rho = o.get("rho_jac")
        if rho is not None:
            o["rho_jac"] = lambda t, y: rho(t, y[inv])
        return (lambda t, y: np.asarray(fun(t, y[inv]))[q], t0, y0[q], tb), o

    def y(self, y):
        return y[self.inv]


HOW = {"mirror": Mirror, "yscale": YScale, "tscale": TScale, "turn": Turn,
       "columns": Columns, "lists": Lists, "atol": Atol, "jaclist": JacList,
       "jacsparse": JacSparse, "meye": MEye, "msparse": MSparse,
       "mdense": MDense, "complex": Complex, "permute": Permute,
       "mrows": MRows, "mscale": MScale}


def leg(sc, how, world):
    spec = dict(sc["spec"], opts=dict(sc["spec"]["opts"]))
    spec["opts"].pop("vectorized", None)
    p = problems.build(spec["problem"])
    args, o, port, _ = methods.build_args(spec, world, problem=p)
    fun = args[0]
    args = (lambda t, y: fun(t, np.ascontiguousarray(y)), *args[1:])
    args, o = how.apply(args, o, port)
    rec = []
    try:
        s = methods.cls(spec["method"])(*args, **o)
    except (SimFault, SimBudget):
        return [("noinit", "sim")], port
    except Exception as e:
        return [("noinit", type(e).__name__)], port
    rec.append(("init", how.t(s.t), how.y(s.y), s.nfev, s.njev))
    bad = 0
    while s.status == "running" and len(rec) < 400:
        world.refill(20_000)
        try:
            s.step()
        except SimFault:
            bad += 1
            rec.append(("raised", how.t(s.t), how.y(s.y), s.nfev, s.njev))
            if bad > 10:
                break
            continue
        except SimBudget:
            rec.append(("budget",))
            break
        except Exception as e:
            rec.append((type(e).__name__, ))
            break
        rec.append((s.status, how.t(s.t), how.y(s.y), s.nfev, s.njev))
        if sc["dense"] and s.status != "failed":
            try:
                so = s.dense_output()
            except SimFault:
                rec.append(("dense raised",))
                continue
            a, b = how.t(s.t_old), how.t(s.t)
            for k in (1, 2, 3):
                x = a + (b - a)*.25*k
                z = so(how.there(x))
                rec.append(("dense", x, how.y(z)))
    return rec, port


def equal(a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return False
    for u, v in zip(a[1:], b[1:]):
        if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
            if not np.array_equal(u, v, equal_nan=True):
                return False
        elif u != v:
            return False
    return True


def close(a, b, tol):
    """same up to rounding?"""
    if len(a) != len(b) or a[0] != b[0]:
        return False
    if len(a) < 3:
        return True
    x, y = np.asarray(a[2]), np.asarray(b[2])
    ok = np.abs(x - y) <= tol*(1 + np.abs(y).max(initial=0))
    return bool(np.all(ok | ~(np.isfinite(x) | np.isfinite(y))))


def execute(sc):
    out = Out(PID)
    spec = sc["spec"]
    name = spec["method"]
    kind = sc["kind"]
    w0 = World(sc["faults"], budget=20_000)
    p = problems.build(spec["problem"])
    rec0, port0 = leg(sc, Ident(sc, p), w0)
    w = World(sc["faults"], budget=20_000, keep_log=True)
    how = HOW[kind](sc, p)
    rec, port = leg(sc, how, w)
    if kind == "complex":
        port.contract = []
    for c in (port0.contract + port.contract)[:1]:
        out.bad("contract", f"{name}: {c}")
    steps = sum(1 for x in rec0 if x[0] in ("running", "finished"))
    if how.exact:
        j = next((j for j, (a, b) in enumerate(zip(rec0, rec))
                  if not equal(a, b)), None)
        if j is None and len(rec0) != len(rec):
            j = min(len(rec0), len(rec))
        if j is not None:
            a = rec0[j] if j < len(rec0) else "end"
            b = rec[j] if j < len(rec) else "end"
            out.bad(kind, f"{name}: event {j} is {a} and, described as "
                    f"'{kind}', {b}")
    else:
        loose(out, sc, name, kind, rec0, rec, p)
    out.mark("kinds", kind)
    out.mark("runs_by_method", name)
    out.world(w)
    out.add("accepted_steps", steps)
    return out.done(w, steps >= 2)


class Noise(Ident):
    """the same description with other rounding of the derivative"""
    def __init__(self, sc, p, k):
        super().__init__(sc, p)
        self.g = np.random.default_rng([sc["perm"], k])
        self.size = 4**(k % 4)*EPS

    def apply(self, args, o, port):
        fun, t0, y0, tb = args

        def noisy(t, y):
            f = np.asarray(fun(t, y))
            e = self.g.integers(-2, 3, f.shape)*self.size
            e[:self.p.n - self.half] = 0           # velocities are exact
            return f*(1 + e)
        return (noisy, t0, y0, tb), o


def differ(rec0, rec, tol, steps=1e-3, work=False):
    """first event (not dense) at which two runs differ, or None"""
    a = [x for x in rec0 if x[0] != "dense"]
    b = [x for x in rec if x[0] != "dense"]
    longest = 0.
    for k, (x, y) in enumerate(zip(a, b)):
        if k and len(x) > 2 and len(a[k-1]) > 2:
            longest = max(longest, abs(x[1] - a[k-1][1]))
        if x[0] != y[0] or len(x) != len(y):
            return k, x, y
        if work and x[3:] != y[3:]:
            return k, x, y
        if len(x) > 2 and abs(x[1] - y[1]) > steps*longest + 4*ulps(x[1]):
            return k, x, y
        if len(x) > 2 and not close(x, y, tol + 20*abs(x[1] - y[1])):
            return k, x, y
    if len(a) != len(b):
        k = min(len(a), len(b))
        return k, (a[k:k+1] or ["end"])[0], (b[k:k+1] or ["end"])[0]
    return None


def loose(out, sc, name, kind, rec0, rec, p):
    rtol, atol = tol_of(sc["spec"])
    tol, steps, work = .05*rtol, 1e-3, False
    g = methods.group(name)
    if kind in UNITS and g == "implicit" or kind == "mscale" and \
            sc["spec"]["problem"]["fam"] == "mass":
        # the same arithmetic, up to the order of sums in BLAS and LAPACK
        tol, steps, work = 1e-9, 1e-6, True
    d = differ(rec0, rec, tol, steps, work)
    if d is None:
        for x, y in zip(rec0, rec):
            dt = abs(x[1] - y[1]) if len(x) > 2 and len(y) > 2 else 0.
            if x[0] == "dense" and not close(x, y, tol + 20*dt):
                d = 0, x, y
                break
    if d is None:
        out.add("compared_completely")
        return
    if g == "implicit" and not work:
        # one Newton iteration more or less changes all that follows
        coarse(out, name, kind, rec0, rec, rtol, atol)
        return
    # an error estimate that is nothing but rounding decides nothing sensible
    a = [x for x in rec0 if x[0] != "dense"][max(0, d[0]-3):d[0]]
    for x, y in zip(a, a[1:]):
        if p.exact and len(x) > 2 and len(y) > 2 and x[1] != y[1] and np.all(
                np.isfinite(y[2])):
            e = np.abs(p.flow(x[1], x[2], y[1]) - y[2])
            if np.all(e <= 1e-5*(np.asarray(atol) + rtol*np.abs(y[2]))):
                out.add("rounding_decides")
                return
    # is this run that sensitive to rounding?
    for k in range(12):
        again, _ = leg(sc, Noise(sc, p, k), World(sc["faults"],
                                                  budget=20_000))
        e = differ(rec0, again, .1*tol, .1*steps, work)
        if e is not None and e[0] <= d[0] + 1:
            out.add("rounding_decides")
            return
    x, y = d[1:]
    if g == "implicit" and sc["spec"]["problem"]["fam"][:3] == "dae" and \
            len(x) == 5 and len(y) == 5 and x[0] == y[0] and \
            abs(x[3] - y[3]) <= 2 and x[4] == y[4] and abs(x[1] - y[1]) <= \
            1e-6*abs(x[1] - p.t0):
        e = np.abs(x[2] - y[2])/(np.asarray(atol) + rtol*np.abs(x[2]))
        if e.max(initial=0) < 20:
            # one Newton iteration more, at the edge
            out.add("newton_iteration_more")
            coarse(out, name, kind, rec0, rec, rtol, atol)
            return
    out.bad(kind, f"{name}: event {d[0]} is {d[1]} and, described as "
            f"'{kind}', {d[2]}; rounding alone does not do this")


def coarse(out, name, kind, rec0, rec, rtol, atol):
    a = [x for x in rec0 if x[0] in ("running", "finished")]
    b = [x for x in rec if x[0] in ("running", "finished")]
    out.add("compared_coarsely")
    what = None
    if bool(a) != bool(b) or a and (rec0[-1][0] == "finished") != (
            rec[-1][0] == "finished"):
        what = "the end"
    elif abs(len(a) - len(b)) > 6 + .3*len(a):
        what = "the number of steps"
    elif a and abs(a[-1][3] - b[-1][3]) > 60 + .3*a[-1][3]:
        what = "the number of evaluations"
    if what:
        out.bad(kind, f"{name}: {what} differs: {len(a)} steps {a[-1:]} and, "
                f"described as '{kind}', {len(b)} steps {b[-1:]}")
