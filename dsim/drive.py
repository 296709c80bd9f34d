"""Driving one real solver through its public interface and recording the
history that the oracles look at."""
import warnings

import numpy as np

from .core import SimBudget, SimCrash, SimFault, SimInterrupt
from .methods import make_solver

warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Step:
    __slots__ = ("t_old", "y_old", "t", "y", "c0", "c1", "nfev", "njev",
                 "nlu", "extra")

    def __init__(self, t_old, y_old, t, y, c0, c1, solver):
        self.t_old, self.y_old, self.t, self.y = t_old, y_old, t, y
        self.c0, self.c1 = c0, c1
        self.nfev, self.njev, self.nlu = (solver.nfev, solver.njev,
                                          solver.nlu)
        self.extra = None


class History:
    """what happened in one run"""

    def __init__(self):
        self.steps = []
        self.status = None        # finished / failed / running
        self.message = None
        self.error = None         # exception that escaped, or None
        self.stage = None         # 'init' / 'step' / 'dense'
        self.solver = None
        self.port = None
        self.y_start = None
        self.t_start = None

    @property
    def t(self):
        return self.steps[-1].t if self.steps else self.t_start

    @property
    def y(self):
        return self.steps[-1].y if self.steps else self.y_start


def run(spec, world, max_steps=3000, on_step=None, on_error=None, agent=0,
        watch=None, problem=None, shared=None, step_budget=None, h=None):
    """run a solver to the end.  on_error(exc, h) -> True to retry."""
    h = h or History()
    h.stage = "init"
    try:
        h.solver, h.port, h.shared = make_solver(spec, world, agent, watch,
                                                 problem, shared)
    except (SimFault, SimBudget, SimCrash, SimInterrupt) as e:
        h.error = e
        h.status = "noinit"
        return h
    except Exception as e:              # an error of the library
        h.error = e
        h.status = "noinit"
        return h
    s = h.solver
    h.stage = "step"
    h.t_start, h.y_start = s.t, np.array(s.y, copy=True)
    h.c_init = world.ncalls
    while s.status == "running" and len(h.steps) < max_steps:
        t_old, y_old = s.t, np.array(s.y, copy=True)
        c0 = world.ncalls
        if step_budget:
            world.refill(step_budget)
        try:
            h.message = s.step()
        except (SimFault, SimBudget, SimCrash, SimInterrupt,
                Exception) as e:
            h.error = e
            if isinstance(e, (SimBudget, SimCrash)):
                break
            if on_error is not None and on_error(e, h):
                h.error = None
                continue
            break
        if s.status != "failed":
            h.steps.append(Step(t_old, y_old, s.t, np.array(s.y, copy=True),
                                c0, world.ncalls, s))
            if on_step is not None:
                on_step(h)
    h.status = s.status
    return h


def same(a, b, tol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if np.array_equal(a, b, equal_nan=True):
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return bool(np.all(np.abs(a - b) <= tol*(1 + np.abs(a).max(initial=0))))


def local_ratio(problem, st, rtol, atol):
    """local error of an accepted step, in units of the tolerance"""
    rtol = min(max(rtol, 1e-15), .1)
    ref = problem.flow(st.t_old, st.y_old, st.t)
    scale = np.asarray(atol) + rtol*np.maximum(np.abs(st.y_old),
                                               np.abs(st.y))
    # rounding in t and in the reference itself
    floor = 1e-12*(1 + np.abs(ref).max(initial=0)) \
        + 4e-16*abs(st.t)*np.abs(problem.f(st.t, st.y)).max(initial=0)
    e = np.maximum(np.abs(st.y - ref) - floor, 0)/scale
    return float(np.sqrt(np.mean(e**2)))
