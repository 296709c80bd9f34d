"""Catalogue of the solver classes, random configuration of a solver run
(swarm style) and construction of the real solver from a configuration."""
import warnings

import numpy as np

from . import problems
from .core import Port

EXPLICIT = ("Ts5", "BS5", "CK5", "CKdisc", "Pr7", "Pr8", "Pr9", "CFMR7osc",
            "Me4")
NYSTROM = ("Fi4N", "Fi5N", "Mu5Nmb", "MR6NN")
MULTI = ("SWAG",)
STAB = ("SSV2stab",)
IMPLICIT = ("HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia", "Kv3I")
ALL = EXPLICIT + NYSTROM + MULTI + STAB + IMPLICIT
ORDER = {"Ts5": 5, "BS5": 5, "CK5": 5, "CKdisc": 5, "Pr7": 7, "Pr8": 8,
         "Pr9": 9, "CFMR7osc": 7, "Me4": 4, "Fi4N": 4, "Fi5N": 5,
         "Mu5Nmb": 5, "MR6NN": 6, "SWAG": 8, "SSV2stab": 2, "HS2I": 2,
         "HS2Ia": 2, "KC3I": 3, "KC4I": 4, "KC4Ia": 4, "Kv3I": 3}
INTERP = {"BS5": ["best", "low", "free"], "Fi5N": [0, 2, 3],
          "Mu5Nmb": ["better", "free"], "KC3I": ["C0", "C1"],
          "KC4I": ["C0", "C1"], "KC4Ia": ["C0", "C1"], "Kv3I": ["C0", "C1"]}
STIFFDET = ("Ts5", "BS5", "CK5", "Pr7", "Pr8", "Pr9", "Me4",
            "Fi4N", "Fi5N", "Mu5Nmb", "MR6NN")
# methods that use the interpolant of their base class
BASEP = ("Ts5", "CK5", "Pr7", "Pr8", "Pr9", "Me4", "MR6NN", "KC3I",
         "KC4I", "KC4Ia", "Kv3I")
EPS = np.finfo(float).eps


def group(name):
    for g, names in (("explicit", EXPLICIT), ("nystrom", NYSTROM),
                     ("multi", MULTI), ("stab", STAB),
                     ("implicit", IMPLICIT)):
        if name in names:
            return g
    raise KeyError(name)


def cls(name):
    import extensisq
    return getattr(extensisq, name)


def pick(r, seq):
    return seq[r.randrange(len(seq))]


def gen_span(r, length):
    kind = r.random()
    if kind < .3:
        t0 = 0.
    elif kind < .7:
        t0 = r.uniform(-3, 3)
    elif kind < .8:
        t0 = -length*r.uniform(.1, .9)          # crosses zero
    elif kind < .9:
        t0 = pick(r, [1., -1.])*r.uniform(50, 2000)
    else:
        t0 = float(r.randrange(-4, 5))
    if r.random() < .4:
        length = -length
    tb = t0 + length
    if r.random() < .12:
        tb = 0.
        t0 = length if abs(length) > 0 else 1.
    return t0, tb


def gen_problem(r, method, fams=None, length=None, cplx=None, nmax=4):
    g = group(method)
    ps = {}
    if fams:
        fam = pick(r, list(fams))
    elif g == "nystrom":
        fam = pick(r, ["osc2", "osc2", "duff2"])
    elif g == "stab":
        # real spectra only: the documented domain of the method
        fam = pick(r, ["heat", "heat", "heat", "logistic", "bern", "cosmul",
                       "const", "expo", "ramp"])
    elif g == "implicit":
        fam = pick(r, ["lin", "lin", "logistic", "cosmul", "twist", "bern",
                       "mass", "daelog", "daelin", "const", "heat", "expo",
                       "stiffnl", "mass", "ramp"])
    else:
        fam = pick(r, list(problems.FAMS_GENERAL) + (
            ["switch"] if method == "CKdisc" else []))
    if method == "MR6NN" and fam in ("osc2", "duff2"):
        fam += "s"
    ps["fam"] = fam
    ps["n"] = r.randrange(1, nmax + 1)
    if fam in ("osc2", "osc2s", "duff2", "duff2s", "twist", "daelog"):
        ps["n"] = 2*r.randrange(1, max(1, nmax//2) + 1)
    if fam == "daelin":
        ps["n"] = r.randrange(2, nmax + 2)
    if fam == "heat":
        ps["n"] = r.randrange(4, 11)
        ps["diff"] = r.uniform(5, 60)
    ps["seed"] = r.randrange(1 << 30)
    if length is None:
        length = r.uniform(.3, 4.)
    ps["t0"], ps["tb"] = gen_span(r, length)
    if fam in ("lin", "cosmul", "osc2", "osc2s") and g != "stab":
        c = r.random() < .2 if cplx is None else cplx
        if c:
            ps["cplx"] = True
    if fam in ("lin", "mass") and g == "implicit" and r.random() < .4:
        ps["stiff"] = 10**r.uniform(1, 4)
    if fam in ("stiffnl", "ramp"):
        ps["stiff"] = 10**r.uniform(.5, 3.5)
    if fam == "lin":
        ps["rate"] = r.uniform(.5, 5.)
    if fam in ("mass", "daelog", "daelin"):
        ps["mform"] = pick(r, ["diag1", "diag2", "full", "sparse"])
        if fam == "mass" and ps["mform"] == "full" and r.random() < .2:
            ps["mform"] = "sparse"
    if fam in ("daelog", "daelin") and r.random() < .5:
        # P of these problems is the identity if mform is 'diag*'
        ps["mix"] = pick(r, ["diag", "full"]) if ps["mform"] == "sparse" \
            else {"full": "full"}.get(ps["mform"], "diag")
        if r.random() < .4 and ps["mform"] not in ("full", "sparse"):
            ps["ascale"] = 10**r.uniform(-12, 5)
        if cplx is None and r.random() < .3:
            ps["cplx"] = True
    return ps


def gen_opts(r, method, ps, tol=None, faults=False):
    """options of a solver: legal values only"""
    g = group(method)
    o = {}
    q = ORDER[method]
    if tol is None:
        if q <= 2:
            e = r.uniform(1.5, 4.)
        elif q <= 4:
            e = r.uniform(2., 6.5)
        else:
            e = r.uniform(2., 9.)
        tol = 10**-e
    o["rtol"] = float(tol)
    a = tol*10**r.uniform(-3, .5)
    if r.random() < .25 and ps["fam"] not in ("daelin",):
        n = problems.build(ps).n
        o["atol"] = [float(a*10**r.uniform(-1, 1)) for _ in range(n)]
    else:
        o["atol"] = float(a)
    L = abs(ps["tb"] - ps["t0"])
    u = r.random()
    if u < .3:
        o["max_step"] = L*r.uniform(.03, .6)
    elif u < .35:
        o["max_step"] = L*r.uniform(1., 3.)
    u = r.random()
    if u < .25:
        o["first_step"] = L*10**r.uniform(-4, -.5)
    elif u < .33:
        o["first_step"] = L*r.uniform(.1, .3)
    if r.random() < .15:
        o["vectorized"] = True
    if method in INTERP:
        o["interpolant"] = pick(r, INTERP[method])
    if method in STIFFDET:
        u = r.random()
        if u < .2:
            o["nfev_stiff_detect"] = 0
        elif u < .4:
            o["nfev_stiff_detect"] = r.randrange(20, 300)
    if (g == "explicit" and method != "CKdisc") or g == "implicit" or (
            g == "nystrom" and method != "Fi5N"):
        u = r.random()
        if u < .15:
            o["sc_params"] = "standard"
        elif u < .3:
            o["sc_params"] = "S"
        elif u < .4:
            o["sc_params"] = "G"
    if method == "Mu5Nmb" and r.random() < .4:
        o["scale_embedded"] = r.random() < .5
    if method == "SWAG":
        if r.random() < .5:
            o["k_max"] = r.randrange(1, 13)
        if o.get("k_max", 12) < 4:
            # low order: keep the work bounded
            o["rtol"] = max(o["rtol"], 1e-4)
            if not isinstance(o["atol"], list):
                o["atol"] = max(o["atol"], 1e-6)
    if method == "SSV2stab":
        if r.random() < .4:
            o["rho_jac"] = True
        if r.random() < .25:
            o["const_jac"] = ps["fam"] in ("lin", "heat", "const", "expo")
    if g == "implicit":
        lin = ps["fam"] in ("lin", "heat", "expo", "const", "mass", "daelin")
        u = r.random()
        if u < .25:
            o["jac"] = "none"
            if ps["fam"] == "heat" and r.random() < .6:
                o["jac_sparsity"] = True
        elif u < .55 or not lin:
            o["jac"] = pick(r, ["call", "call", "callsparse", "calllist"])
        elif u < .8:
            o["jac"] = "array"
        else:
            o["jac"] = "arraysparse"
        if "sparse" in o["jac"] and ps.get("cplx"):
            o["jac"] = o["jac"].replace("sparse", "")
        if r.random() < .2:
            o["jac_each_step"] = True
    return o


def gen_spec(r, methods=ALL, fams=None, tol=None, length=None, cplx=None,
             method=None, nmax=4, alias=True):
    m = method or pick(r, list(methods))
    ps = gen_problem(r, m, fams=fams, length=length, cplx=cplx, nmax=nmax)
    s = {"method": m, "problem": ps, "opts": gen_opts(r, m, ps, tol)}
    if alias and r.random() < .3:
        s["alias"] = pick(r, ["list", "readonly", "cached", "alias"])
        if s["alias"] == "list" and s["opts"].get("vectorized"):
            s["alias"] = "readonly"
        if s["alias"] == "list" and group(m) == "nystrom":
            s["alias"] = "fresh"
    return s


def lay_out(a, how):
    """the same array in another place in memory: column by column, or as
    part of a larger array"""
    if how == "F":
        return np.array(a, order="F")
    big = np.full(tuple(2*k for k in a.shape), 77, a.dtype)
    part = big[(slice(None, None, 2),)*a.ndim]
    part[...] = a
    return part


def build_args(spec, world, agent=0, watch=None, problem=None, shared=None):
    """(args, kwargs, port) for the solver class of a spec"""
    from scipy.sparse import csc_array
    p = problem or problems.build(spec["problem"])
    o = dict(spec["opts"])
    jf = o.pop("jac", None)
    port = Port(world, p, agent, alias=spec.get("alias", "fresh"),
                vectorized=o.get("vectorized", False), watch=watch)
    port.column_order = spec.get("layout") == "F"
    shared = {} if shared is None else shared

    def keep(name, val):
        if spec.get("layout") and isinstance(val, np.ndarray):
            val = lay_out(val, spec["layout"])
        return shared.setdefault(name, val)

    if isinstance(o.get("atol"), list):
        o["atol"] = keep("atol", np.array(o["atol"]))
    if jf == "call":
        o["jac"] = port.jac
    elif jf == "callsparse":
        port.jacform = "sparse"
        o["jac"] = port.jac
    elif jf == "calllist":
        port.jacform = "list"
        o["jac"] = port.jac
    elif jf == "array":
        o["jac"] = keep("jac", np.array(p.jac(p.t0, p.y0)))
    elif jf == "arraysparse":
        o["jac"] = keep("jac", csc_array(p.jac(p.t0, p.y0)))
    if o.pop("jac_sparsity", None):
        S = (p.jac(p.t0, p.y0) != 0).astype(float)
        o["jac_sparsity"] = keep("sparsity", S)
    if p.M is not None:
        mf = spec["problem"].get("mform", "full")
        if mf == "diag1":
            o["M"] = keep("M", np.diag(p.M).copy())
        elif mf == "sparse":
            o["M"] = keep("M", csc_array(p.M))
        else:
            o["M"] = keep("M", p.M.copy())
    if o.pop("rho_jac", None):
        o["rho_jac"] = port.rho
    y0 = keep("y0", p.y0.copy())
    if spec.get("t0") is not None:          # restart
        y0 = spec["y_restart"]
        t0 = spec["t0"]
    else:
        t0 = p.t0
    args = (port.fun, t0, y0, p.tb)
    return args, o, port, shared


def make_solver(spec, world, agent=0, watch=None, problem=None, shared=None):
    args, kw, port, shared = build_args(spec, world, agent, watch, problem,
                                        shared)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kls = cls(spec["method"])
        if spec.get("nop"):
            # a user's subclass that does not bring its own interpolant
            kls = type(kls.__name__, (kls,), {"P": property(
                lambda s: NotImplemented, lambda s, v: None)})
        solver = kls(*args, **kw)
    return solver, port, shared
