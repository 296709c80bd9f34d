"""Small executable reference models of one step of each method.

They use the pinned published coefficients (coeffs.json) and plain loops, and
share no code with the library.  All take the derivative function f(t, y)."""
import json
import os

import numpy as np
from math import sqrt, log, sinh, cosh

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       "coeffs.json")) as _f:
    COEFFS = json.load(_f)


def co(name):
    c = COEFFS[name]
    if not isinstance(c.get("_done"), bool):
        for k, v in list(c.items()):
            if isinstance(v, list):
                c[k] = np.array(v, float)
        c["_done"] = True
    return c


def rms(x):
    return float(np.sqrt(np.mean(np.abs(x)**2))) if x.size else 0.


def _stages(A, C, f, t, y, h, k0, n):
    K = [k0]
    for i in range(1, n):
        dy = sum((A[i][j]*K[j] for j in range(i)), 0*y)
        K.append(f(t + C[i]*h, y + h*dy))
    return K


def _comb(b, K):
    return sum((b[j]*K[j] for j in range(min(len(b), len(K)))), 0*K[0])


def explicit(name, f, t, y, h, k0, opts=None):
    """-> y_new, error vector, K (with the derivative at the new point)"""
    c = co(name)
    n = c["n_stages"]
    K = _stages(c["A"], c["C"], f, t, y, h, k0, n)
    yn = y + h*_comb(c["B"], K)
    K.append(f(t + h, yn))
    return yn, h*_comb(c["E"], K), K


def ckdisc_fallback(which, f, t, y, H, k0):
    """solution of the fallback formula of a trial of full size H; the step
    covers C_fallback*H.  -> y_new, error vector"""
    c = co("CKdisc")
    n = 2 if which == 0 else 4
    K = _stages(c["A"], c["C"], f, t, y, H, k0, n)
    return (y + H*_comb(c["B_fallback"][which], K),
            H*_comb(c["E_fallback"][which], K))


def nystrom(name, f, t, y, h, k0, opts=None):
    """f gives [v, a]; k0 is the acceleration.  -> y_new, err, K"""
    c = co(name)
    n = c["n_stages"]
    m = y.size//2
    u, v = y[:m], y[m:]
    Ap = c.get("Ap")
    K = [k0]
    for i in range(1, n):
        dt = c["C"][i]*h
        ui = u + dt*v + h*h*sum((c["A"][i][j]*K[j] for j in range(i)), 0*u)
        vi = v + (h*sum((Ap[i][j]*K[j] for j in range(i)), 0*u)
                  if Ap is not None else 0)
        K.append(f(t + dt, np.concatenate([ui, vi]))[m:])
    un = u + h*v + h*h*_comb(c["B"], K)
    vn = v + h*_comb(c["Bp"], K)
    yn = np.concatenate([un, vn])
    K.append(f(t + h, yn)[m:])
    s = 1.
    if name == "Mu5Nmb" and (opts or {}).get("scale_embedded", True):
        s = .75
    err = np.concatenate([h*h*_comb(c["E"], K), h*_comb(c["Ep"], K)])*s
    return yn, err, K


def rkc(f, t, y, h, f0, m):
    """Runge-Kutta-Chebyshev step with m stages (Sommeijer, Shampine and
    Verwer 1997).  -> y_new, err"""
    w0 = 1 + 2/(13*m*m)
    T, dT, d2T = [1., w0], [0., 1.], [0., 0.]
    for j in range(2, m+1):
        T.append(2*w0*T[-1] - T[-2])
        dT.append(2*T[-2] + 2*w0*dT[-1] - dT[-2])
        d2T.append(4*dT[-2] + 2*w0*d2T[-1] - d2T[-2])
    w1 = dT[m]/d2T[m]
    b = [0., 0.] + [d2T[j]/dT[j]**2 for j in range(2, m+1)]
    b[0] = b[1] = 1/(4*w0*w0)
    c = [0., 0.] + [w1*d2T[j]/dT[j] for j in range(2, m+1)]
    c[1] = w1*b[1]
    mu1 = b[1]*w1
    Y = [y, y + mu1*h*f0]
    # nodes by the same recursion that defines the stages for f = 1
    th = [0., mu1]
    for j in range(2, m+1):
        mu = 2*b[j]*w0/b[j-1]
        nu = -b[j]/b[j-2]
        mut = 2*b[j]*w1/b[j-1]
        ga = -(1 - b[j-1]*T[j-1])*mut
        Fj = f(t + h*th[-1], Y[-1])
        Y.append((1 - mu - nu)*y + mu*Y[-1] + nu*Y[-2] + mut*h*Fj + ga*h*f0)
        th.append(mu*th[-1] + nu*th[-2] + mut + ga)
    yn = Y[-1]
    fn = f(t + h, yn)
    return yn, .8*(y - yn) + .4*h*(f0 + fn)


_GX, _GW = np.polynomial.legendre.leggauss(10)
_GX, _GW = (_GX + 1)/2, _GW/2


def _weights(s):
    """w_j = integral over [0, 1] of the Lagrange polynomials on nodes s"""
    w = np.empty(len(s))
    for j in range(len(s)):
        L = np.ones_like(_GX)
        for i in range(len(s)):
            if i != j:
                L = L*(_GX - s[i])/(s[j] - s[i])
        w[j] = _GW @ L
    return w


def adams(f, hist, t_new, k):
    """Adams PECE step: order k predictor, order k+1 corrector.
    hist: [(t, f)] newest first, with at least k entries; -> p, y-p parts"""
    t, y, F = hist["t"], hist["y"], hist["f"]
    h = t_new - t[0]
    s = [(ti - t[0])/h for ti in t[:k]]
    w = _weights(s)
    p = y + h*sum((w[j]*F[j] for j in range(k)), 0*y)
    fp = f(t_new, p)
    # corrector of order k+1: nodes t_new and k old ones
    w1 = _weights([1.] + s)
    yn = y + h*(w1[0]*fp + sum((w1[j+1]*F[j] for j in range(k)), 0*y))
    # corrector of order k: one old node less
    if k > 1:
        w0 = _weights([1.] + s[:-1])
        yl = y + h*(w0[0]*fp + sum((w0[j+1]*F[j] for j in range(k-1)), 0*y))
    else:
        yl = y + h*fp
    mag = abs(h)*max([float(np.abs(w[j]*F[j]).max(initial=0))
                      for j in range(k)])
    return p, yn, yn - yl, mag


def esdirk(name, f, jac, M, t, y, h, k0, sc):
    """fully converged ESDIRK step; k0: derivative at the start.
    -> y_new, err (unfiltered), K, filtered error, ok"""
    c = co(name)
    n, d = c["n_stages"], c["d"]
    A, C = c["A"], c["C"]
    N = y.size
    Mm = np.eye(N) if M is None else M
    K = [k0]
    ok = True
    J = jac(t, y)
    for s in range(1, n):
        psi = y + h*sum((A[s][j]*K[j] for j in range(s)), 0*y)
        Az = c["Az"]
        z = h*sum((Az[s][j]*K[j] for j in range(s)), 0*y)
        ts = t + C[s]*h
        best = np.inf
        for it in range(25):
            Y = psi + d*z
            r = h*f(ts, Y) - Mm @ z
            J = jac(ts, Y)
            dz = np.linalg.solve(Mm - h*d*J, r)
            z = z + dz
            q = rms(dz/sc)
            if q < 1e-11 or (q >= best and q < 1e-6):
                break
            best = min(best, q)
        else:
            ok = False
        K.append(z/h)
    yn = psi + d*z
    err = h*_comb(c["E"], K)
    return yn, err, K, ok


# -- dense output -----------------------------------------------------------
def poly(base, h, K, P):
    """theta -> base + h * sum_j theta^(j+1) (K^T P)_j"""
    Q = sum(np.multiply.outer(P[i], K[i]) for i in range(len(P)))

    def at(x):
        return base + h*sum((Q[j]*x**(j+1) for j in range(len(Q))), 0*base)
    return at


def cubic(h, y0, y1, f0, f1):
    def at(x):
        return ((1 + 2*x)*(1 - x)**2*y0 + x*(1 - x)**2*h*f0
                + x*x*(3 - 2*x)*y1 + x*x*(x - 1)*h*f1)
    return at


def quintic(h, y0, y1, a0, a1):
    """u quintic Hermite, v its derivative"""
    m = y0.size//2
    u0, v0, u1, v1 = y0[:m], y0[m:], y1[:m], y1[m:]
    # monomial coefficients from the six end conditions
    c0, c1, c2 = u0, h*v0, h*h*a0/2
    R = [u1 - c0 - c1 - c2, h*v1 - c1 - 2*c2, h*h*a1 - 2*c2]
    S = np.linalg.inv(np.array([[1., 1, 1], [3, 4, 5], [6, 12, 20]]))
    c3, c4, c5 = (sum(S[i][j]*R[j] for j in range(3)) for i in range(3))

    def at(x):
        u = c0 + x*(c1 + x*(c2 + x*(c3 + x*(c4 + x*c5))))
        v = (c1 + x*(2*c2 + x*(3*c3 + x*(4*c4 + x*5*c5))))/h
        return np.concatenate([u, v])
    return at


def dense(name, interp, f, t, y, h, yn, K, f1):
    """reference interpolant of a step; K from the reference step (with the
    derivative at the new point last); f1: derivative at the new point"""
    c = co(name)
    if name == "BS5":
        interp = interp or "low"
        if interp == "free":
            return poly(y, h, K, c["P"])
        K = list(K)
        for i in range(1 if interp == "low" else 3):
            a = c["A_extra"][i]
            K.append(f(t + c["C_extra"][i]*h,
                       y + h*sum(a[j]*K[j] for j in range(len(K)))))
        if interp == "low":
            return poly(y, h, K, c["Plow"])
        P = c["Pbest"].copy()
        P[:, 0] = 0
        P[7, 0] = 1.
        g = poly(yn, h, K, P)
        return lambda x: g(x - 1)
    if name in ("Fi4N", "Fi5N", "Mu5Nmb", "MR6NN"):
        m = y.size//2
        if name == "Fi4N" or (name == "Fi5N" and not interp) or (
                name == "Mu5Nmb" and interp == "free"):
            return quintic(h, y, yn, K[0], f1[m:])
        K = list(K)
        if name == "MR6NN":
            P, Pp = c["P"], c["Pp"]
        elif name == "Mu5Nmb":
            ex = [(c["C_extra"], c["A_extra"], c["Ap_extra"])]
            P, Pp = c["P_better"], c["Pp_better"]
        else:
            k = interp
            ex = list(zip(c[f"C_extra{k}"], c[f"A_extra{k}"],
                          c[f"Ap_extra{k}"]))
            P, Pp = c[f"P{k}"], c[f"Pp{k}"]
        if name != "MR6NN":
            for ce, a, ap in ex:
                n = min(len(K), len(a))
                du = h*h*sum(a[j]*K[j] for j in range(n)) + ce*h*y[m:]
                dv = h*sum(ap[j]*K[j] for j in range(n))
                K.append(f(t + ce*h, y + np.concatenate([du, dv]))[m:])
        u = poly(0*y[:m], h*h, K, P)
        v = poly(y[m:], h, K, Pp)
        # displacement: u0 + x*(h v0 + h^2 sum Q_j x^(j+1))
        return lambda x: np.concatenate([y[:m] + x*(h*y[m:] + u(x)), v(x)])
    if "P" in c and name not in ("KC3I", "KC4I", "KC4Ia", "Kv3I"):
        return poly(y, h, K, c["P"])
    if name in ("KC3I", "KC4I", "KC4Ia", "Kv3I"):
        return poly(y, h, K, c["P1" if interp == "C1" else "P0"])
    if name in ("HS2I", "HS2Ia"):
        cm = c["C"][1]
        ym = y + h*sum((c["A"][1][j]*K[j] for j in range(len(K))), 0*y)
        a = cubic(h*cm, y, ym, K[0], K[1])
        b = cubic(h*(1 - cm), ym, yn, K[1], K[2])
        return lambda x: a(x/cm) if x <= cm else b((x - cm)/(1 - cm))
    return cubic(h, y, yn, K[0], f1)


class EsdirkChain:
    """consecutive reference steps.  The first stage of a step is the last
    stage of the step before it; the derivative at the accepted state stands
    in for it, which differs by what the Newton iteration left"""

    def __init__(self, name, p, slope):
        self.name, self.p, self.slope = name, p, slope
        self.unsure = 0                # steps that cannot be judged

    def lose(self, n=4):
        self.unsure = max(self.unsure, n)

    def step(self, t, y, tn, yn, scale):
        """-> (y_ref, err, K) or None"""
        if self.unsure:
            self.unsure -= 1
            return None
        p = self.p
        k0 = self.slope(t, y)
        if not np.all(np.isfinite(k0)):
            return None
        try:
            ref, err, K, ok = esdirk(self.name, p.f, p.jac, p.M, t, y, tn - t,
                                     k0, scale)
        except np.linalg.LinAlgError:
            return None
        return (ref, err, K) if ok else None

    def doubt(self, t, y, tn, scale, ref, err):
        """how far one tolerance of Newton error left in the state before
        moves the step and its error estimate, by way of the first stage
        (large only for stiff components)"""
        p, out = self.p, [0., 0.]
        k0 = self.slope(t, y)
        J = p.jac(t, y)
        Mm = np.eye(y.size) if p.M is None else p.M
        rng = np.random.default_rng(7)
        for k in range(6):
            d = rng.choice([-1., 1.], y.size)*scale
            try:
                dk = np.linalg.lstsq(Mm, J @ d, rcond=None)[0]
                r2, e2, _, ok = esdirk(self.name, p.f, p.jac, p.M, t, y,
                                       tn - t, k0 + dk, scale)
            except np.linalg.LinAlgError:
                continue
            if ok:
                out = [max(out[0], rms((r2 - ref)/scale)),
                       max(out[1], rms((e2 - err)/scale))]
        return out
