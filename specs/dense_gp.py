"""The specification of the solvers: the exact (dense) Gaussian process of a sum of
arbitrary kernels of specs/generic.py, over El (exact) or over the witness alone."""
import numpy as np
from vc import field as fd, linalg as la
from vc.field import El, EL0, EL1, lift


class Comp:
    """one component: V, lam, L, C, H0, H1, R as drawn"""

    def __init__(self, V, lam, L, C, H0, H1=None, c=EL1):
        self.V, self.lam = V, lam
        self.d = len(lam)
        Vi = la.inv(V)
        LL = Vi @ L
        B = LL @ (C + C.T) @ LL.T
        self.Pi = la.zeros(self.d, self.d)
        for a in range(self.d):
            for b in range(self.d):
                self.Pi[a, b] = -B[a, b] / (lam[a] + lam[b]) * c
        self.h0 = (H0 @ V)[0]
        self.h1 = (H1 @ V)[0] if H1 is not None else la.zeros(self.d)

    def h(self, t):
        return self.h0 + self.h1 * t

    def statecov(self, t, s):
        """Cov(xi(t), xi(s)) in the eigenbasis"""
        d = self.d
        r = np.empty((d, d), dtype=object)
        late = not fd.cmp_lt(t, s)
        dt = t - s if late else s - t
        e = [fd.el_exp(l * dt) for l in self.lam]
        for a in range(d):
            for b in range(d):
                r[a, b] = (e[a] if late else e[b]) * self.Pi[a, b]
        return r

    def k(self, t, s):
        return self.h(t) @ self.statecov(t, s) @ self.h(s)

    def x_y(self, t, s):
        """Cov(x(t), f(s)): state in the caller's basis"""
        return self.V @ (self.statecov(t, s) @ self.h(s))

    def var_state(self):
        return self.V @ self.Pi @ self.V.T

    # ---- exposures (h constant): e = (start, end); zero length: instantaneous
    def _coef(self):
        return self.h0 * (self.Pi @ self.h0)

    def avg_avg(self, e, f):
        c = self._coef()
        (s1, t1, z1), (s2, t2, z2) = e, f
        if z1 and z2:
            return self.k(s1, s2)
        if z1:
            return self.pt_avg(s1, f)
        if z2:
            return self.pt_avg(s2, e)
        tot = EL0
        for a in range(self.d):
            lam = self.lam[a]

            def g(u, v):
                x = u - v if not fd.cmp_lt(u, v) else v - u
                return (fd.el_exp(lam * x) - lam * x) / (lam * lam)
            tot = tot + c[a] * (g(t1, s2) + g(s1, t2) - g(t1, t2) - g(s1, s2))
        return tot / ((t1 - s1) * (t2 - s2))

    def pt_avg(self, t, e):
        """Cov(f(t), average over e)"""
        s, u, z = e
        if z:
            return self.k(t, s)
        c = self._coef()
        tot = EL0
        for a in range(self.d):
            lam = self.lam[a]

            def G(x, y):
                if fd.cmp_lt(x, y):
                    return (EL1 - fd.el_exp(lam * (y - x))) / lam
                return (fd.el_exp(lam * (x - y)) - EL1) / lam
            tot = tot + c[a] * (G(t, s) - G(t, u))
        return tot / (u - s)


class Mix:
    """a sum, product or multiple of components, as one component (covariances only)"""

    def __init__(self, op, *cs):
        self.op, self.cs, self.d = op, cs, 0

    def k(self, t, s):
        v = [c.k(t, s) if hasattr(c, "k") else c for c in self.cs]
        r = v[0]
        for x in v[1:]:
            r = r + x if self.op == "+" else r * x
        return r

    def avg_avg(self, e, f):
        return self._lin("avg_avg", e, f)

    def pt_avg(self, t, e):
        return self._lin("pt_avg", t, e)

    def _lin(self, m, *a):
        v = [getattr(c, m)(*a) if hasattr(c, m) else c for c in self.cs]
        assert self.op == "+" or sum(hasattr(c, m) for c in self.cs) == 1
        r = v[0]
        for x in v[1:]:
            r = r + x if self.op == "+" else r * x
        return r


def posterior(K, noise, y):
    """-> (inverse of K + noise, alpha, det)"""
    n = len(y)
    C = np.array(K, dtype=object, copy=True)
    for i in range(n):
        C[i, i] = C[i, i] + noise[i]
    Ci = la.inv(C)
    return Ci, Ci @ y, C


def det(C):
    C = np.array(C, dtype=object, copy=True)
    n = C.shape[0]
    d = EL1
    for c in range(n):
        piv = C[c, c]
        d = d * piv
        for i in range(c + 1, n):
            k = C[i, c] / piv
            for j in range(c + 1, n):
                C[i, j] = C[i, j] - k * C[c, j]
    return d


def loglik_obl(label, lp, Cov, alpha, y):
    """exp(-2 log p) = exp(y' C^-1 y) det(C) (2 pi)^N, or the logarithm on the witness"""
    n = len(y)
    quad = y @ alpha
    dt = det(Cov)
    two_pi = lift(2) * fd.pi_el()
    lp = np.asarray(lp, dtype=object)[()]
    if fd.MONLY or lp.f is None:
        w = -(quad + fd.el_log(dt) + lift(n) * fd.el_log(two_pi)) / lift(2)
        return (label, lp, w)
    # in the field: exp(-2 lp); on the witness: lp itself
    f = fd.el_exp(El(lp.f, None, lp.lin) * lift(-2)).f
    want = El(fd.CTX.E(quad.f)) * El(dt.f) * El(two_pi.f) ** n
    if lp.m is None:
        return (label, El(f), want)
    w = -(quad + fd.el_log(dt) + lift(n) * fd.el_log(two_pi)) / lift(2)
    return (label, El(f, lp.m), El(want.f, w.m))
