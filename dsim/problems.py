"""Problem families.  Each has a right hand side and (nearly all) an exact
flow, so that the local error of a single step can be measured from the last
accepted state whatever happened before it."""
import numpy as np
from scipy.linalg import expm


class Problem:
    fam = None
    M = None                # mass matrix, or None
    second = False          # second order structure [u, v]
    strict = False          # acceleration does not depend on velocity
    fault_lo = 0
    smooth = True
    exact = True
    linear = False

    n = 0
    y0 = None
    t0 = 0.
    tb = 1.

    def f(self, t, y):
        raise NotImplementedError

    def jac(self, t, y):
        raise NotImplementedError

    def flow(self, t0, y0, t):
        raise NotImplementedError

    def rho(self, t, y):
        return max(1e-3, float(np.abs(np.linalg.eigvals(
            np.atleast_2d(self.jac(t, y)))).max()) * 1.1)


def _col(v, y):
    """broadcast a vector over the columns of a vectorized y"""
    return v if y.ndim == 1 else v[:, None]


class Linear(Problem):
    """y' = A y + b + c sin(w t) + d cos(w t)"""
    fam = "lin"
    linear = True

    def setup(self, A, b, c, d, w):
        self.A, self.b, self.c, self.d, self.w = A, b, c, d, w
        n = self.n = A.shape[0]
        G = np.zeros((n+3, n+3), complex if np.iscomplexobj(A) else float)
        G[:n, :n] = A
        G[:n, n] = b
        G[:n, n+1] = c
        G[:n, n+2] = d
        G[n+1, n+2] = w            # sin' = w cos
        G[n+2, n+1] = -w           # cos' = -w sin
        self.G = G
        return self

    def f(self, t, y):
        s = self.b + self.c*np.sin(self.w*t) + self.d*np.cos(self.w*t)
        return self.A @ y + _col(s, y)

    def jac(self, t, y):
        return self.A.copy()

    def flow(self, t0, y0, t):
        z = np.concatenate([y0, [1., np.sin(self.w*t0), np.cos(self.w*t0)]])
        return (expm(self.G*(t - t0)) @ z)[:self.n]

    def rho(self, t, y):
        if not hasattr(self, "_rho"):
            self._rho = float(np.abs(np.linalg.eigvals(self.A)).max())*1.1
        return max(self._rho, 1e-3)


class Osc2(Linear):
    """u'' = -K u - C v + forcing, as [u, v]' ; v is handed on exactly"""
    fam = "osc2"
    second = True

    def f(self, t, y):
        m = self.n//2
        s = self.b + self.c*np.sin(self.w*t) + self.d*np.cos(self.w*t)
        if self.strict:
            a = self.A[m:, :m] @ y[:m] + _col(s[m:], y)
        else:
            a = self.A[m:] @ y + _col(s[m:], y)
        return np.concatenate([y[m:], a])


class Expo(Problem):
    """y' = y (used with an RHS that returns its own argument)"""
    fam = "expo"
    linear = True

    def f(self, t, y):
        return y.copy()

    def jac(self, t, y):
        return np.eye(self.n, dtype=self.y0.dtype)

    def flow(self, t0, y0, t):
        return y0*np.exp(t - t0)


class Const(Problem):
    """y' = c (possibly zero)"""
    fam = "const"
    linear = True

    def f(self, t, y):
        if y.ndim == 1:
            return self.c.copy()
        return np.repeat(self.c[:, None], y.shape[1], axis=1)

    def jac(self, t, y):
        return np.zeros((self.n, self.n), self.y0.dtype)

    def flow(self, t0, y0, t):
        return y0 + self.c*(t - t0)


class Logistic(Problem):
    """y_i' = r_i y_i (1 - y_i)"""
    fam = "logistic"

    def f(self, t, y):
        return _col(self.r, y)*y*(1 - y)

    def jac(self, t, y):
        return np.diag(self.r*(1 - 2*y))

    def flow(self, t0, y0, t):
        e = np.exp(self.r*(t - t0))
        return y0*e/(1 + y0*(e - 1))


class CosMul(Problem):
    """y' = a y cos(w t)"""
    fam = "cosmul"

    def f(self, t, y):
        return self.a*y*np.cos(self.w*t)

    def jac(self, t, y):
        return self.a*np.cos(self.w*t)*np.eye(self.n, dtype=self.y0.dtype)

    def flow(self, t0, y0, t):
        return y0*np.exp(self.a/self.w*(np.sin(self.w*t) - np.sin(self.w*t0)))


class Twist(Problem):
    """planar rotation whose speed depends on radius and time; n = 2*pairs"""
    fam = "twist"

    def _omega(self, t, y):
        r2 = y[0::2]**2 + y[1::2]**2
        return _col(self.w0, r2)*(1 + self.q*r2) + self.a*np.cos(t)

    def f(self, t, y):
        om = self._omega(t, y)
        out = np.empty(np.broadcast_shapes(y.shape), y.dtype)
        out[0::2] = -om*y[1::2]
        out[1::2] = om*y[0::2]
        return out

    def jac(self, t, y):
        J = np.zeros((self.n, self.n))
        om = self._omega(t, y)
        for k in range(self.n//2):
            x, z = y[2*k], y[2*k+1]
            g = 2*self.w0[k]*self.q
            J[2*k, 2*k] = -g*x*z
            J[2*k, 2*k+1] = -om[k] - g*z*z
            J[2*k+1, 2*k] = om[k] + g*x*x
            J[2*k+1, 2*k+1] = g*x*z
        return J

    def flow(self, t0, y0, t):
        r2 = y0[0::2]**2 + y0[1::2]**2
        ph = (self.w0*(1 + self.q*r2)*(t - t0)
              + self.a*(np.sin(t) - np.sin(t0)))
        c, s = np.cos(ph), np.sin(ph)
        out = np.empty_like(y0)
        out[0::2] = c*y0[0::2] - s*y0[1::2]
        out[1::2] = s*y0[0::2] + c*y0[1::2]
        return out


class Bern(Problem):
    """y_i' = -d*k_i y_i^3 (d: direction of time)"""
    fam = "bern"

    def f(self, t, y):
        return -_col(self.k, y)*y**3

    def jac(self, t, y):
        return np.diag(-3*self.k*y**2)

    def flow(self, t0, y0, t):
        return y0/np.sqrt(1 + 2*self.k*y0**2*(t - t0))


class Switch(Problem):
    """y' = slope that jumps at given times (not smooth in time)"""
    fam = "switch"
    smooth = False

    def f(self, t, y):
        j = int(np.searchsorted(self.ts, t))
        return -self.lam*y + _col(self.s[j], y)

    def jac(self, t, y):
        return -self.lam*np.eye(self.n)

    def flow(self, t0, y0, t):
        # piecewise exact
        d = 1 if t >= t0 else -1
        cuts = [c for c in self.ts if min(t0, t) < c < max(t0, t)]
        cuts = sorted(cuts)[::d]
        y, x = y0, t0
        for c in cuts + [t]:
            mid = 0.5*(x + c)
            s = self.s[int(np.searchsorted(self.ts, mid))]
            if self.lam:
                e = np.exp(-self.lam*(c - x))
                y = s/self.lam + (y - s/self.lam)*e
            else:
                y = y + s*(c - x)
            x = c
        return y


class Duff2(Problem):
    """u'' = -u - q u^3 (+ damping); no closed flow"""
    fam = "duff2"
    second = True
    exact = False

    def f(self, t, y):
        m = self.n//2
        u, v = y[:m], y[m:]
        a = -_col(self.k, y)*u - self.q*u**3 + self.a*np.cos(t)
        if not self.strict:
            a = a - self.cd*v
        return np.concatenate([v, a])

    def jac(self, t, y):
        m = self.n//2
        J = np.zeros((self.n, self.n))
        J[:m, m:] = np.eye(m)
        J[m:, :m] = np.diag(-self.k - 3*self.q*y[:m]**2)
        if not self.strict:
            J[m:, m:] = -self.cd*np.eye(m)
        return J


class VdP(Problem):
    fam = "vdp"
    exact = False

    def f(self, t, y):
        d = self.d
        return d*np.stack([y[1], self.mu*((1 - y[0]**2)*y[1]) - y[0]])

    def jac(self, t, y):
        d = self.d
        return d*np.array([[0., 1.], [-2*self.mu*y[0]*y[1] - 1,
                                      self.mu*(1 - y[0]**2)]])


class StiffNl(Problem):
    """y = g(t) + Q z, z' = -lam(t) (z + c z^3) with large and moving lam;
    the solution is attracted to a smooth curve"""
    fam = "stiffnl"

    def setup(self, Q, lam, c, a, b, w, ph, d):
        self.Q, self.lam, self.c, self.a, self.b = Q, lam, c, a, b
        self.w, self.ph, self.d = w, ph, d
        self.n = lam.size
        return self

    def curve(self, t):
        return self.a + self.b*np.sin(self.w*t)

    def rate(self, t):
        return self.d*self.lam*(1.2 + np.sin(self.w*t + self.ph))

    def f(self, t, y):
        z = self.Q.T @ (y - _col(self.curve(t), y))
        r = -_col(self.rate(t), y)*(z + self.c*z*z*z)
        return _col(self.b*self.w*np.cos(self.w*t), y) + self.Q @ r

    def jac(self, t, y):
        z = self.Q.T @ (y - self.curve(t))
        return -(self.Q*(self.rate(t)*(1 + 3*self.c*z*z))) @ self.Q.T

    def decay(self, t0, t):
        return self.d*self.lam*(1.2*(t - t0) - (
            np.cos(self.w*t + self.ph) - np.cos(self.w*t0 + self.ph))/self.w)

    def flow(self, t0, y0, t):
        z = self.Q.T @ (y0 - self.curve(t0))
        e = np.exp(-self.decay(t0, t))
        z = z*e/np.sqrt(1 + self.c*z*z*(1 - e*e))
        return self.curve(t) + self.Q @ z


class Ramp(StiffNl):
    """the same, but the stiffness comes or goes once"""
    fam = "ramp"

    def ramp(self, tm, k, lo):
        self.tm, self.k, self.lo = tm, k, lo
        return self

    def rate(self, t):
        return self.d*self.lam*(self.lo + (1 - self.lo)*.5*(
            1 + np.tanh(self.k*(t - self.tm))))

    def decay(self, t0, t):
        def lc(x):                 # log(2 cosh(x))
            return abs(x) + np.log1p(np.exp(-2*abs(x)))
        a, b = self.k*(t - self.tm), self.k*(t0 - self.tm)
        return self.d*self.lam*(self.lo*(t - t0) + (1 - self.lo)*.5*(
            t - t0 + (lc(a) - lc(b))/self.k))


class MassLinear(Problem):
    """M y' = A y + b + c sin + d cos with regular M"""
    fam = "mass"
    linear = True

    def setup(self, M, lin):
        self.M, self.lin, self.n = M, lin, lin.n
        self.MA = M @ lin.A
        return self

    def f(self, t, y):
        lin = self.lin
        s = lin.b + lin.c*np.sin(lin.w*t) + lin.d*np.cos(lin.w*t)
        return self.MA @ y + _col(self.M @ s, y)

    def jac(self, t, y):
        return self.MA.copy()

    def flow(self, t0, y0, t):
        return self.lin.flow(t0, y0, t)


class DaeLog(Problem):
    """u' = r(u - v), 0 = s*(u^2 - v) + mixing; u logistic, v = u^2"""
    fam = "daelog"

    def setup(self, r, s, P):
        self.r, self.s, self.P = r, s, P
        m = r.size
        self.n = 2*m
        D = np.zeros((2*m, 2*m))
        D[:m, :m] = np.eye(m)
        self.M = P @ D
        return self

    def f(self, t, y):
        m = self.n//2
        u, v = y[:m], y[m:]
        raw = np.concatenate([_col(self.r, y)*(u - v),
                              _col(self.s, y)*(u*u - v)])
        return self.P @ raw

    def jac(self, t, y):
        m = self.n//2
        J = np.zeros((2*m, 2*m))
        J[:m, :m] = np.diag(self.r)
        J[:m, m:] = -np.diag(self.r)
        J[m:, :m] = np.diag(2*self.s*y[:m])
        J[m:, m:] = -np.diag(self.s)
        return self.P @ J

    def flow(self, t0, y0, t):
        m = self.n//2
        u0 = y0[:m]
        e = np.exp(self.r*(t - t0))
        u = u0*e/(1 + u0*(e - 1))
        return np.concatenate([u, u*u])

    def differential(self, y):
        return y[:self.n//2]

    def algebraic(self, t, y):
        """v that belongs to the differential part of y"""
        m = self.n//2
        return np.concatenate([y[:m], y[:m]**2])


class DaeLin(Problem):
    """u' = A u + B v + forcing, 0 = s(v - C u - e sin(w t))"""
    fam = "daelin"
    linear = True

    def setup(self, A, B, C, e, w, s, P, b, d):
        m, q = A.shape[0], C.shape[0]
        self.m, self.q = m, q
        self.A, self.B, self.C, self.e, self.w, self.s = A, B, C, e, w, s
        self.b, self.d = b, d
        self.P = P
        self.n = m + q
        D = np.zeros((m+q, m+q))
        D[:m, :m] = np.eye(m)
        self.M = P @ D
        self.lin = Linear().setup(A + B @ C, b, B @ e, d, w)
        return self

    def f(self, t, y):
        u, v = y[:self.m], y[self.m:]
        r1 = self.A @ u + self.B @ v + _col(self.b + self.d*np.cos(self.w*t),
                                            y)
        r2 = self.s*(v - self.C @ u - _col(self.e*np.sin(self.w*t), y))
        return self.P @ np.concatenate([r1, r2])

    def jac(self, t, y):
        J = np.block([[self.A, self.B], [-self.s*self.C,
                                         self.s*np.eye(self.q)]])
        return self.P @ J

    def flow(self, t0, y0, t):
        u = self.lin.flow(t0, y0[:self.m], t)
        return np.concatenate([u, self.C @ u + self.e*np.sin(self.w*t)])

    def differential(self, y):
        return y[:self.m]

    def algebraic(self, t, y):
        u = y[:self.m]
        return np.concatenate([u, self.C @ u + self.e*np.sin(self.w*t)])


class Mixed(Problem):
    """a problem in other variables z = Q^H y (Q unitary), and with combined
    equations: L M Q z' = L f(t, Q z)"""

    def __init__(self, p, L, Q):
        self.p, self.L, self.Q = p, L, Q
        self.fam, self.n, self.linear = p.fam, p.n, p.linear
        self.M = L @ p.M @ Q
        self.y0 = Q.conj().T @ p.y0

    def f(self, t, y):
        return self.L @ self.p.f(t, self.Q @ y)

    def jac(self, t, y):
        return self.L @ self.p.jac(t, self.Q @ y) @ self.Q

    def flow(self, t0, y0, t):
        return self.Q.conj().T @ self.p.flow(t0, self.Q @ y0, t)

    def algebraic(self, t, y):
        return self.Q.conj().T @ self.p.algebraic(t, self.Q @ y)

    def differential(self, y):
        return self.p.differential(self.Q @ y)


def mixed(p, ps, g):
    """mix: 'diag' keeps the mass matrix diagonal, 'full' does not"""
    n = p.n
    nd = p.m if p.fam == "daelin" else n//2     # differential variables
    cplx = bool(ps.get("cplx"))
    D = 10**g.uniform(-1, 1, n)
    D[nd:] *= ps.get("ascale", 1.)
    if ps["mix"] == "diag":
        Q = np.eye(n)[g.permutation(n)]
        if cplx:
            Q = np.exp(2j*np.pi*g.uniform(size=n))[:, None]*Q
        L = Q.conj().T @ np.diag(D)
    else:
        Q, L = (g.normal(size=(n, n)) + (
            1j*g.normal(size=(n, n)) if cplx else 0) for _ in range(2))
        Q, L = np.linalg.qr(Q)[0], np.linalg.qr(L)[0] @ np.diag(D)
    return Mixed(p, L, Q)


# ---------------------------------------------------------------------------
FAMS_GENERAL = ("lin", "lin", "logistic", "cosmul", "twist", "bern", "const",
                "expo")


def _stable(g, n, d, rate, cplx=False, skew=0.):
    """matrix whose eigenvalues have non-positive real part in direction d"""
    X = g.normal(size=(n, n))
    if cplx:
        X = X + 1j*g.normal(size=(n, n))
    S = X - X.conj().T                     # skew
    R = X @ X.conj().T                     # positive
    A = (skew*S/max(1e-9, np.linalg.norm(S, 2)) if n > 1 or cplx else 0*S)
    A = A - R/np.linalg.norm(R, 2)*g.uniform(.1, 1.)
    return d*rate*A


def build(ps):
    """problem from its spec: {'fam', 'n', 'seed', 't0', 'tb', ...}"""
    g = np.random.default_rng(ps["seed"])
    fam, n = ps["fam"], ps.get("n", 2)
    t0, tb = float(ps["t0"]), float(ps["tb"])
    d = 1. if tb >= t0 else -1.
    cplx = bool(ps.get("cplx", False))
    rate = ps.get("rate", 2.0)
    if fam == "lin":
        A = _stable(g, n, d, rate, cplx, skew=g.uniform(.5, 2.))
        if ps.get("stiff"):
            A = A - d*np.diag(np.linspace(0, ps["stiff"], n)).astype(A.dtype)
        dt = A.dtype
        b, c, dd = (g.normal(size=n).astype(dt) for _ in range(3))
        if cplx:
            c = c + 1j*g.normal(size=n)
        p = Linear().setup(A, b, c, dd, g.uniform(.5, 3.))
        p.y0 = (g.normal(size=n)*2).astype(dt)
        if cplx:
            p.y0 = p.y0 + 1j*g.normal(size=n)
    elif fam == "heat":
        A = (np.diag(-2*np.ones(n)) + np.diag(np.ones(n-1), 1)
             + np.diag(np.ones(n-1), -1))*ps.get("diff", 30.)*d
        b, c, dd = g.normal(size=n), g.normal(size=n), np.zeros(n)
        p = Linear().setup(A, b, c, dd, g.uniform(.5, 2.))
        p.y0 = g.normal(size=n)
        p.fam = "heat"
    elif fam in ("osc2", "osc2s"):
        m = max(1, n//2)
        n = 2*m
        p = Osc2()
        p.strict = fam == "osc2s"
        K = np.diag(g.uniform(.5, 4., m))
        X = g.normal(size=(m, m))*.2
        K = K + X @ X.T
        C = np.zeros((m, m)) if p.strict else d*np.diag(g.uniform(0, .8, m))
        if ps.get("stiff"):
            C = C + d*np.diag(np.linspace(1, .2, m)*ps["stiff"])
            K = K*max(1., ps["stiff"]/10)
        A = np.zeros((n, n))
        A[:m, m:] = np.eye(m)
        A[m:, :m] = -K
        A[m:, m:] = -C
        cplx2 = complex if cplx else float
        z = np.zeros(n)
        c = z.copy()
        c[m:] = g.normal(size=m)
        dd = z.copy()
        dd[m:] = g.normal(size=m)
        p.setup(A.astype(cplx2), z.astype(cplx2), c.astype(cplx2),
                dd.astype(cplx2), g.uniform(.5, 2.5))
        p.y0 = g.normal(size=n).astype(cplx2)
        if cplx:
            p.y0 = p.y0 + 1j*g.normal(size=n)
        p.fault_lo = m
    elif fam in ("duff2", "duff2s"):
        m = max(1, n//2)
        n = 2*m
        p = Duff2()
        p.n = n
        p.strict = fam == "duff2s"
        p.k, p.q, p.a = g.uniform(.5, 2, m), g.uniform(0, .5), g.normal()
        p.cd = d*g.uniform(0, .5)
        p.y0 = g.normal(size=n)
        p.fault_lo = m
    elif fam == "expo":
        p = Expo()
        p.n = n
        p.y0 = g.normal(size=n)
    elif fam == "const":
        p = Const()
        p.n = n
        p.c = g.normal(size=n)*g.integers(0, 2, n)
        if g.random() < .2:
            p.c = p.c*0
        p.y0 = g.normal(size=n)
    elif fam == "logistic":
        p = Logistic()
        p.n = n
        p.r = g.uniform(.3, 3., n)*g.choice([-1, 1], n)
        p.y0 = g.uniform(.05, .95, n)
    elif fam == "cosmul":
        p = CosMul()
        p.n = n
        p.a, p.w = g.uniform(.3, 1.5), g.uniform(.5, 3.)
        p.y0 = g.normal(size=n)
        if cplx:
            p.a = p.a*(1 + .5j)
            p.y0 = p.y0 + 1j*g.normal(size=n)
    elif fam == "twist":
        p = Twist()
        n = p.n = 2*max(1, n//2)
        p.w0, p.q, p.a = g.uniform(.5, 2., n//2), g.uniform(0, .5), g.normal()
        p.y0 = g.normal(size=n)
    elif fam == "bern":
        p = Bern()
        p.n = n
        p.k = d*g.uniform(.2, 2., n)
        p.y0 = g.normal(size=n)
    elif fam == "switch":
        p = Switch()
        p.n = n
        k = int(ps.get("nsw", 2))
        p.ts = np.sort(g.uniform(min(t0, tb), max(t0, tb), k))
        p.s = g.normal(size=(k+1, n))*2
        p.lam = d*g.uniform(0, 1.5)*g.integers(0, 2)
        p.y0 = g.normal(size=n)
    elif fam == "vdp":
        p = VdP()
        p.n, p.mu, p.d = 2, ps.get("mu", 5.), d
        p.y0 = np.array([2., 0.])
    elif fam == "stiffnl":
        lam = np.sort(10**g.uniform(-.5, np.log10(ps.get("stiff", 100.)), n))
        Q = np.linalg.qr(g.normal(size=(n, n)))[0]
        p = StiffNl().setup(Q, lam, g.uniform(0, 2), g.normal(size=n),
                            g.normal(size=n), g.uniform(.5, 4.),
                            g.uniform(0, 6.), d)
        p.y0 = p.curve(t0) + Q @ g.uniform(-1, 1, n)
    elif fam == "ramp":
        lam = np.sort(10**g.uniform(-.5, np.log10(ps.get("stiff", 100.)), n))
        lam[-1] = ps.get("stiff", 100.)
        Q = np.linalg.qr(g.normal(size=(n, n)))[0]
        L = abs(tb - t0)
        p = Ramp().setup(Q, lam, g.uniform(0, 2), g.normal(size=n),
                         g.normal(size=n), g.uniform(.5, 4.)/max(1, L/4),
                         0., d)
        p.ramp(t0 + (tb - t0)*g.uniform(.2, .8),
               g.choice([-1, 1])*10**g.uniform(.5, 1.5)/L, 10**g.uniform(-3, -1))
        p.y0 = p.curve(t0) + Q @ g.uniform(-1, 1, n)
    elif fam == "mass":
        A = _stable(g, n, d, rate, False, skew=g.uniform(.5, 2.))
        if ps.get("stiff"):
            A = A - d*np.diag(np.linspace(0, ps["stiff"], n))
        lin = Linear().setup(A, g.normal(size=n), g.normal(size=n),
                             g.normal(size=n), g.uniform(.5, 3.))
        if ps.get("mform") in ("diag1", "diag2"):
            M = np.diag(g.uniform(.3, 3., n))
        else:
            M = np.eye(n) + .3*g.normal(size=(n, n))/np.sqrt(n)
        p = MassLinear().setup(M, lin)
        p.y0 = g.normal(size=n)*2
    elif fam == "daelog":
        m = max(1, n//2)
        P = np.eye(2*m)
        if ps.get("mform") in ("full", "sparse"):
            P = np.linalg.qr(g.normal(size=(2*m, 2*m)))[0]
        p = DaeLog().setup(d*g.uniform(.3, 2., m), g.uniform(.5, 5., m)
                           * g.choice([-1., 1.], m), P)
        u = g.uniform(.05, .8, m)
        p.y0 = np.concatenate([u, u*u])
        if ps.get("inconsistent"):
            p.y0[m:] += ps["inconsistent"]*g.uniform(-1, 1, m)
    elif fam == "daelin":
        q = max(1, n//3)
        m = max(1, n - q)
        P = np.eye(m+q)
        if ps.get("mform") in ("full", "sparse"):
            P = np.linalg.qr(g.normal(size=(m+q, m+q)))[0]
        A = _stable(g, m, d, rate, False, skew=g.uniform(.5, 2.))
        B = .3*g.normal(size=(m, q))
        C = .3*g.normal(size=(q, m))
        p = DaeLin().setup(A, B, C, g.normal(size=q), g.uniform(.5, 2.5),
                           float(g.choice([-1., 1., 10., .2])), P,
                           g.normal(size=m), g.normal(size=m))
        u = g.normal(size=m)
        p.y0 = np.concatenate([u, u*0])
        p.y0 = p.algebraic(t0, p.y0)
        if ps.get("inconsistent"):
            p.y0[m:] += ps["inconsistent"]*g.uniform(-1, 1, q)
    else:
        raise KeyError(fam)
    if ps.get("mix"):
        p = mixed(p, ps, g)
    p.t0, p.tb, p.spec = t0, tb, ps
    if ps.get("zero_y0"):
        p.y0 = p.y0*0
    return p
