"""Things all property modules share."""
import contextlib
import random

import numpy as np

from . import drive, methods, problems
from .core import (World, SimBudget, SimCrash, SimFault,
                   SimInterrupt, HarnessError)  # noqa

EPS = np.finfo(float).eps


class Out:
    """result of one simulated run"""

    def __init__(self, pid):
        self.pid = pid
        self.viol = []
        self.stats = {}
        self.nontrivial = False
        self.sig = ""
        self.digest = ""
        self.trace = None

    def bad(self, key, msg):
        if len(self.viol) < 8:
            self.viol.append({"key": f"{self.pid}:{key}", "msg": msg})

    def add(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def mark(self, group, name, n=1):
        d = self.stats.setdefault(group, {})
        name = str(name)
        d[name] = d.get(name, 0) + n

    def hi(self, name, v):
        name = "max_" + name
        self.stats[name] = max(self.stats.get(name, v), v)

    def world(self, w):
        for k, v in w.fired.items():
            self.mark("fired", k, v)
        self.add("callbacks", w.ncalls)

    def history(self, h, name):
        self.mark("runs_by_method", name)
        self.mark("outcomes", outcome(h))
        self.add("accepted_steps", len(h.steps))
        if h.t_start is not None:
            self.add("sim_time", abs(h.t - h.t_start))

    def done(self, w=None, nontrivial=None):
        if w is not None:
            self.digest = w.digest()
            self.trace = [list(x) for x in w.log[-400:]] if w.log else None
        self.sig = self.sig or self.digest
        if nontrivial is not None:
            self.nontrivial = bool(nontrivial)
        return {"viol": self.viol, "stats": self.stats,
                "nontrivial": self.nontrivial, "sig": self.sig,
                "digest": self.digest,
                "trace": self.trace if self.viol else None}


def outcome(h):
    if h.error is not None:
        return f"{h.stage}:{type(h.error).__name__}"
    return str(h.status)


def dry(spec, budget=200_000, max_steps=1500, **kw):
    """fault free run in a fork (nothing it does reaches this process);
    returns numbers only"""
    from . import iso

    def go():
        w = World(budget=budget)
        h = drive.run(spec, w, max_steps=max_steps, **kw)
        return {"outcome": outcome(h), "status": h.status,
                "nsteps": len(h.steps), "init": getattr(h, "c_init", 0),
                "bounds": [(s.c0, s.c1) for s in h.steps],
                "t": [h.t_start] + [s.t for s in h.steps],
                "fun": w.counts.get((0, "fun"), 0),
                "jac": w.counts.get((0, "jac"), 0),
                "ncalls": w.ncalls,
                "msg": h.message, "err": str(h.error)}
    return iso.fork_call(go, timeout=60.)


def biased_k(r, d, role="fun"):
    """a call index biased towards the interesting places of a dry run:
    construction, start and end of steps, just after acceptance"""
    total = max(1, d[role])
    if role != "fun" or not d["bounds"]:
        return r.randrange(total)
    u = r.random()
    if u < .12:
        return r.randrange(max(1, d["init"]))
    if u < .3:
        return min(total-1, d["init"] + r.randrange(6))
    c0, c1 = d["bounds"][r.randrange(len(d["bounds"]))]
    if u < .5:
        k = c0
    elif u < .7:
        k = c1 - 1
    elif u < .8:
        k = c0 + 1
    else:
        k = r.randrange(c0, max(c0+1, c1))
    return min(max(0, k), total-1)


def spec_for(r, i, names=methods.ALL, **kw):
    """specs in rotation over the methods, so that each gets its share"""
    # (shifted each round: checks use i % k to choose a kind of scenario)
    return methods.gen_spec(r, method=names[(i + i//len(names)) % len(names)],
                            **kw)


def tol_of(spec):
    return spec["opts"]["rtol"], np.asarray(spec["opts"]["atol"])


# measured worst local error of a clean run is below a tenth of these
LOCAL = {"Ts5": 400, "BS5": 800, "CK5": 700, "CKdisc": 300, "Pr7": 100,
         "Pr8": 100, "Pr9": 100, "CFMR7osc": 200, "Me4": 100, "Fi4N": 50,
         "Fi5N": 50, "Mu5Nmb": 200, "MR6NN": 50, "SWAG": 800,
         "SSV2stab": 100, "HS2I": 100, "HS2Ia": 100, "KC3I": 150,
         "KC4I": 400, "KC4Ia": 800, "Kv3I": 100}


def rng(sc, what=""):
    return random.Random(f"{sc.get('seed', 0)}/{what}")


def gen_faults(r, kinds, d, role="fun", nmax=3, spread=1, agent=0):
    out = []
    for _ in range(r.randrange(1, nmax + 1)):
        f = {"agent": agent, "role": role, "k": biased_k(r, d, role),
             "kind": methods.pick(r, kinds)}
        u = r.random()
        if u < .25:
            f["n"] = r.randrange(2, 2 + 6*spread)
        if f["kind"] in ("nan1", "ninf"):
            f["i"] = r.randrange(8)
        if f["kind"] == "kick":
            f["arg"] = 10**r.uniform(-6, 0)
        if f["kind"] == "big":
            f["arg"] = 10**r.uniform(1, 12)
        out.append(f)
    return out


def ulps(t, *others):
    return np.spacing(max(abs(t), *[abs(o) for o in others], 1e-300))


@contextlib.contextmanager
def recording_port(p, keep=3000):
    """ports that remember what they answered, by the bits of the state"""
    orig = methods.Port

    class Recording(orig):
        def fun(self, t, y):
            ans = orig.fun(self, t, y)
            yy = y[:, 0] if (y.ndim == 2 and y.shape[1] == 1) else y
            if yy.ndim == 1:
                a = np.asarray(ans, dtype=p.y0.dtype)
                lst = self.last_f.setdefault(yy.tobytes(), [])
                lst.insert(0, (float(t), np.array(
                    a[:, 0] if a.ndim == 2 else a)))
                if len(self.last_f) > keep:
                    for key in list(self.last_f)[:keep//2]:
                        del self.last_f[key]
            return ans
    methods.Port = Recording
    try:
        yield
    finally:
        methods.Port = orig


def answer_at(port, p, t, y):
    """what the library was told the derivative is at an accepted state"""
    got = port.last_f.get(y.tobytes())
    if got:
        tt, ff = min(got, key=lambda a: abs(a[0] - t))
        if abs(tt - t) <= 16*ulps(t, p.t0, p.tb):
            return ff
    return p.f(t, y)


def initial_slope(p, t, y, f0):
    """y' at an accepted state, also with a mass matrix"""
    if p.M is None:
        return f0
    if np.linalg.matrix_rank(p.M) == p.n:
        return np.linalg.solve(p.M, f0)
    e = 1e-5        # derivative of the exact solution through (t, y)
    return (p.flow(t, y, t + e) - p.flow(t, y, t - e))/(2*e)


__all__ = [n for n in dir() if not n.startswith("_")]
