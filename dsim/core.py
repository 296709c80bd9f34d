"""The simulated world.

Every piece of user code that the library calls back into (right hand sides,
Jacobians, spectral radius, sensitivity callbacks) is reached through a Port
of a World.  The World owns the fault plan, the evaluation budget, the event
log with its digest, and -- when several solvers run interleaved -- the yield
point at which the scheduler may switch to another task.  Nothing in here
reads a clock or draws a random number.
"""
import hashlib
import struct

import numpy as np


class SimFault(Exception):
    """an injected callback failure"""

    def __init__(self, ident):
        super().__init__(f"injected fault {ident}")
        self.ident = ident


class SimInterrupt(BaseException):
    """an injected asynchronous interrupt, like KeyboardInterrupt"""

    def __init__(self, ident):
        super().__init__(f"injected interrupt {ident}")
        self.ident = ident


class SimCrash(BaseException):
    """the simulated process dies here: nothing may be used afterwards"""


class SimBudget(BaseException):
    """the evaluation budget of the current operation is exhausted"""


class HarnessError(BaseException):
    """the harness itself is wrong: never a verdict on the code under test"""


def _bits(x):
    return np.ascontiguousarray(x).tobytes()


FUN_FAULTS = ("raise", "crash", "nan", "nan1", "inf", "ninf", "huge", "big",
              "kick")
JAC_FAULTS = ("raise", "crash", "jnan", "jnoise", "jstale", "jscale")


class World:
    def __init__(self, faults=(), budget=200_000, keep_log=False,
                 yielder=None):
        # fault plan: {(agent, role): [fault, ...]}
        self.plan = {}
        for i, f in enumerate(faults):
            key = (f.get("agent", 0), f["role"])
            self.plan.setdefault(key, []).append((i, f))
        self.fired = {}                  # kind -> count
        self.fired_ids = []
        self.budget = budget
        self.left = budget
        self.ncalls = 0
        self.counts = {}                 # (agent, role) -> calls so far
        self.h = hashlib.blake2b(digest_size=16)
        self.log = [] if keep_log else None
        self.yielder = yielder           # called at each callback entry
        self.muted = 0                   # >0: the harness itself is calling
        self.enabled = True              # faults armed
        self.poison = None               # last raised SimFault object
        self.observing = False           # calls made for an observer

    # -- log ---------------------------------------------------------------
    def note(self, *what):
        self.h.update(repr(what).encode())
        if self.log is not None:
            self.log.append(what)

    def digest(self):
        return self.h.hexdigest()

    # -- one callback ------------------------------------------------------
    def enter(self, agent, role, t, y):
        if self.observing:
            role = "obs-" + role
        key = (agent, role)
        k = self.counts.get(key, 0)
        self.counts[key] = k + 1
        self.ncalls += 1
        self.left -= 1
        self.h.update(struct.pack("<id", k, float(t)))
        self.h.update(_bits(y))
        if self.log is not None:
            self.log.append((agent, role, k, float(t)))
        if self.left < 0:
            raise SimBudget(f"more than {self.budget} callbacks")
        if self.yielder is not None:
            self.yielder(agent, role, k)
        if not self.enabled:
            return k, None
        for ident, f in self.plan.get(key, ()):
            n = f.get("n", 1)
            if k >= f["k"] and (n < 0 or k < f["k"] + n):
                kind = f["kind"]
                self.fired[kind] = self.fired.get(kind, 0) + 1
                self.fired_ids.append(ident)
                self.note("fault", agent, role, k, kind)
                if kind == "raise":
                    self.poison = SimFault((agent, role, k))
                    raise self.poison
                if kind == "interrupt":
                    self.poison = SimInterrupt((agent, role, k))
                    raise self.poison
                if kind == "crash":
                    raise SimCrash()
                return k, f
        return k, None

    def refill(self, n=None):
        self.left = self.budget if n is None else n


def corrupt_fun(f, fault, k):
    """apply a value fault to a derivative"""
    f = np.array(f, copy=True)
    if not np.issubdtype(f.dtype, np.inexact):
        f = f.astype(float)
    kind = fault["kind"]
    lo = fault.get("lo", 0)             # first component that may be touched
    if kind == "nan":
        f[lo:] = np.nan
    elif kind == "nan1":
        i = lo + fault.get("i", 0) % max(1, (f.shape[0] - lo))
        f[i:i+1] = np.nan
    elif kind == "inf":
        f[lo:] = np.inf
    elif kind == "ninf":
        i = lo + fault.get("i", 0) % max(1, (f.shape[0] - lo))
        f[i:i+1] = -np.inf
    elif kind == "huge":
        f[lo:] = np.where(np.real(f[lo:]) < 0, -1e200, 1e200)
    elif kind == "big":
        a = fault.get("arg", 1e6)
        f[lo:] = f[lo:] * a + a
    elif kind == "kick":
        a = fault.get("arg", 1e-2)
        f[lo:] = f[lo:] * (1 + a) + a
    else:
        raise HarnessError(f"unknown fun fault {kind}")
    return f


def corrupt_jac(J, fault, k, first):
    from scipy.sparse import issparse
    kind = fault["kind"]
    sp = issparse(J)
    D = J.toarray() if sp else np.array(J, copy=True)
    if kind == "jnan":
        D = D * np.nan
    elif kind == "jscale":
        D = D * fault.get("arg", 1.5)
    elif kind == "jnoise":
        g = np.random.default_rng([fault.get("seed", 1), k])
        D = D * g.uniform(1 - fault.get("arg", .3), 1 + fault.get("arg", .3),
                          D.shape)
    elif kind == "jstale":
        D = first.copy()
    else:
        raise HarnessError(f"unknown jac fault {kind}")
    if sp:
        return type(J)(D)
    return D


class Port:
    """the callbacks of one agent, wrapped"""

    def __init__(self, world, problem, agent=0, alias="fresh",
                 vectorized=False, jacform="dense", watch=None):
        self.w = world
        self.p = problem
        self.agent = agent
        self.alias = alias
        self.column_order = False
        self.vectorized = vectorized
        self.jacform = jacform
        self.trace = []            # (role, t) of each call, cheap
        self.returned = watch      # list: (array, copy) pairs to watch
        self.cache = {}
        self.J0 = None
        self.contract = []         # violations of the calling convention
        self.last_f = {}           # (t, y bits) -> response actually returned
        self.remember = False
        self.lo = getattr(problem, "fault_lo", 0)

    # -- right hand side ---------------------------------------------------
    def fun(self, t, y):
        if self.w.muted:
            return self.p.f(t, y)
        self._check_contract("fun", t, y)
        self.trace.append(("fun", float(t)))
        k, fault = self.w.enter(self.agent, "fun", t, y)
        f = self.p.f(t, y)
        if fault is not None:
            if self.lo and "lo" not in fault:
                fault = dict(fault, lo=self.lo)
            f = corrupt_fun(f, fault, k)
        self.w.h.update(_bits(f))
        if self.remember:
            self.last_f[(float(t), _bits(y))] = np.array(f, copy=True)
        return self._hand_over(f, y, fault)

    def _hand_over(self, f, y, fault):
        a = self.alias
        if a == "list":
            return f.tolist()
        if a == "readonly":
            f = np.array(f, copy=True)
            f.setflags(write=False)
        elif a == "alias" and fault is None and self.p.fam == "expo":
            f = y                              # y' = y, returns its argument
        elif a == "cached" and fault is None:
            key = f.tobytes() + bytes(str(f.shape), "ascii")
            f = self.cache.setdefault(key, f)  # equal answers, same object
        if self.returned is not None and isinstance(f, np.ndarray):
            if f is not y and len(self.returned) < 4000:
                self.returned.append((f, f.copy()))
        return f

    def _check_contract(self, role, t, y):
        p = self.p
        if len(self.contract) > 3:
            return
        bad = None
        if not isinstance(y, np.ndarray):
            bad = f"y is a {type(y).__name__}"
        elif np.ndim(t) != 0:
            bad = f"t has shape {np.shape(t)}"
        elif not np.isfinite(t):
            bad = f"t={t}"
        elif np.iscomplexobj(t):
            bad = f"t={t} is complex"
        elif y.dtype != p.y0.dtype:
            bad = f"y has dtype {y.dtype}, y0 has {p.y0.dtype}"
        elif role == "fun" and self.vectorized:
            if y.ndim != 2 or y.shape[0] != p.n:
                bad = f"vectorized: y has shape {y.shape}"
        elif y.shape != (p.n,):
            bad = f"y has shape {y.shape}"
        if bad:
            self.contract.append(f"{role}: {bad}")

    # -- Jacobian ----------------------------------------------------------
    def jac(self, t, y):
        if self.w.muted:
            return self._form(self.p.jac(t, y))
        self._check_contract("jac", t, y)
        self.trace.append(("jac", float(t)))
        k, fault = self.w.enter(self.agent, "jac", t, y)
        J = self.p.jac(t, y)
        if self.J0 is None:
            self.J0 = np.array(J, copy=True)
        if fault is not None:
            J = corrupt_jac(J, fault, k, self.J0)
        self.w.h.update(_bits(J))
        return self._form(J)

    def _form(self, J):
        if self.jacform == "sparse":
            from scipy.sparse import csc_array
            J = csc_array(J)
            if self.returned is not None:
                for a in (J.data, J.indices, J.indptr):
                    self.returned.append((a, a.copy()))
            return J
        if self.jacform == "list":
            return J.tolist()
        if self.column_order:
            J = np.array(J, order="F")
        if self.returned is not None:
            self.returned.append((J, J.copy()))
        return J

    # -- spectral radius ---------------------------------------------------
    def rho(self, t, y):
        self._check_contract("rho", t, y)
        self.trace.append(("rho", float(t)))
        self.w.enter(self.agent, "rho", t, y)
        return float(self.p.rho(t, y))
