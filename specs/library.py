"""Bounded float64 refuters: the real kernels of the library through the whole pipeline, against
a dense Gaussian process built from the documented covariance functions (numpy, quadrature for
the averages).  Never counted as proved."""
import math
import time
import random
import numpy as np
import jax
import jax.numpy as jnp
from vc.report import SEED, TIER
from vc.contract import blame

GL = np.polynomial.legendre.leggauss(24)


# ---- documented covariances
def m32(s, l):
    return lambda D: s * s * (1 + math.sqrt(3) * D / l) * np.exp(-math.sqrt(3) * D / l)


def m52(s, l):
    def k(D):
        x = math.sqrt(5) * D / l
        return s * s * (1 + x + x * x / 3) * np.exp(-x)
    return k


def m72(s, l):
    def k(D):
        x = math.sqrt(7) * D / l
        return s * s * np.exp(-x) * (1 + x + 2 * x * x / 5 + x ** 3 / 15)
    return k


def ex(s, l):
    return lambda D: s * s * np.exp(-D / l)


def cosine(s, P):
    return lambda D: s * s * np.cos(2 * np.pi * D / P)


def const(s):
    return lambda D: s * s + 0 * D


def sho(w, q, s):
    def k(D):
        if q == .5:
            return s * s * np.exp(-w * D) * (1 + w * D)
        n = np.sqrt(complex(1 - 1 / (4 * q * q)))
        return s * s * np.exp(-w * D / 2 / q) * (np.cos(n * w * D) + np.sin(n * w * D) / (2 * n * q)).real
    return k


def periodic(P, g, s, J):
    from scipy.special import ive
    q = [(1 if j == 0 else 2) * ive(j, g / 2) for j in range(J)]
    return lambda D: s * s * sum(a * np.cos(2 * np.pi * j * D / P) for j, a in enumerate(q))


def kernels(K):
    """name, real kernel, covariances of its components"""
    return [
        ("Exp", lambda: K.Exp(scale=.8, sigma=1.3), [ex(1.3, .8)]),
        ("Matern32", lambda: K.Matern32(scale=1.8, sigma=.7), [m32(.7, 1.8)]),
        ("Matern52", lambda: K.Matern52(scale=1.2, sigma=2.), [m52(2., 1.2)]),
        ("Matern(7/2)", lambda: K.Matern(nu=3.5, scale=2.2, sigma=1.1), [m72(1.1, 2.2)]),
        ("SHO underdamped", lambda: K.SHO(omega=2.1, quality=4., sigma=1.4), [sho(2.1, 4., 1.4)]),
        ("SHO critical", lambda: K.SHO(omega=1.1, quality=.5, sigma=.9), [sho(1.1, .5, .9)]),
        ("SHO overdamped", lambda: K.SHO(omega=1.7, quality=.2, sigma=1.2), [sho(1.7, .2, 1.2)]),
        ("Cosine + Constant", lambda: K.Cosine(scale=2.7, sigma=1.2) + K.Constant(sigma=.8),
         [cosine(1.2, 2.7), const(.8)]),
        ("Exp * Cosine + 2.5 * Matern32", lambda: K.Exp(scale=3., sigma=1.1) * K.Cosine(scale=1.9, sigma=.9)
         + 2.5 * K.Matern32(scale=1.4, sigma=.6),
         [lambda D: ex(1.1, 3.)(D) * cosine(.9, 1.9)(D), lambda D: 2.5 * m32(.6, 1.4)(D)]),
        ("Matern32 * ExpSineSquared", lambda: K.Matern32(scale=4., sigma=1.1)
         * K.ExpSineSquared(period=2.3, gamma=1.2, sigma=1., order=3),
         [lambda D: m32(1.1, 4.)(D) * periodic(2.3, 1.2, 1., 3)(D)]),
        ("SHO + SHO + Exp", lambda: K.SHO(omega=3.1, quality=8., sigma=.5)
         + (K.SHO(omega=.7, quality=.7, sigma=1.) + K.Exp(scale=5., sigma=1.)),
         [sho(3.1, 8., .5), sho(.7, .7, 1.), ex(1., 5.)]),
    ]


def ikernels(I):
    return [
        ("IntegratedExp", lambda n: I.IntegratedExp(scale=.8, sigma=1.3, num_insts=n), [ex(1.3, .8)]),
        ("IntegratedMatern32", lambda n: I.IntegratedMatern32(scale=1.8, sigma=.7, num_insts=n), [m32(.7, 1.8)]),
        ("IntegratedMatern52", lambda n: I.IntegratedMatern52(scale=2.2, sigma=2., num_insts=n), [m52(2., 2.2)]),
        ("IntegratedSHO", lambda n: I.IntegratedSHO(omega=2.1, quality=3., sigma=1.4, num_insts=n),
         [sho(2.1, 3., 1.4)]),
        ("IntegratedSHO overdamped", lambda n: I.IntegratedSHO(omega=1.3, quality=.3, sigma=.8, num_insts=n),
         [sho(1.3, .3, .8)]),
        ("1.5 * IntegratedSHO + IntegratedExp", lambda n: 1.5 * I.IntegratedSHO(
            omega=3.1, quality=2., sigma=.9, num_insts=n) + I.IntegratedExp(scale=2., sigma=.8, num_insts=n),
         [lambda D: 1.5 * sho(3.1, 2., .9)(D), ex(.8, 2.)]),
    ]


def avg(k, e, f):
    """average of k(|u - v|) over u in e, v in f"""
    (a, b), (c, d) = e, f
    L, M = b - a, d - c
    if L == 0 and M == 0:
        return float(k(np.abs(np.array(a - c))))
    if M == 0:
        (a, b), (c, d), L, M = (c, d), (a, b), M, L
    pts = sorted({a - c, a - d, b - c, b - d} | ({0.} if a - d < 0 < b - c else set()))
    tot = 0.
    for p, q in zip(pts, pts[1:]):
        x = (p + q) / 2 + (q - p) / 2 * GL[0]
        if L == 0:
            w = np.ones_like(x) / M
        else:
            w = np.clip(np.minimum(b, d + x) - np.maximum(a, c + x), 0, None) / (L * M)
        tot += float(np.sum(GL[1] * w * k(np.abs(x))) * (q - p) / 2)
    return tot


def dense(ks, E, X, y, nz):
    """E, X: lists of (start, end).  -> logp, per component [(mean, var) at E, at X], total last"""
    Kc = [np.array([[avg(k, e, f) for f in E] for e in E]) for k in ks]
    Xc = [np.array([[avg(k, x, e) for e in E] for x in X]) for k in ks]
    vx = [np.array([avg(k, x, x) for x in X]) for k in ks]
    C = sum(Kc) + np.diag(nz)
    Ci = np.linalg.inv(C)
    al = np.linalg.solve(C, y)
    lp = -.5 * (y @ al + np.linalg.slogdet(C)[1] + len(y) * math.log(2 * math.pi))
    out = []
    for A, B, v in [*zip(Kc, Xc, vx), (sum(Kc), sum(Xc), sum(vx))]:
        out.append((A @ al, np.diag(A) - np.einsum("ij,jk,ik->i", A, Ci, A),
                    B @ al, v - np.einsum("ij,jk,ik->i", B, Ci, B)))
    return lp, out


class Pipeline:
    """one kernel and solver: random data sets of fixed size through the real pipeline"""
    numeric = False

    def __init__(self, prop, label, mk, ks, fn, integ, par, key=None, tol=2e-6, sets=None):
        self.name = f"[float64] {label}" + (" (parallel)" if par else "")
        self.prop, self.mk, self.ks, self.fn = prop, mk, ks, fn
        self.integ, self.par, self.key, self.tol = integ, par, key, tol
        self.sets = sets

    def draw(self, rng, n, m):
        if not self.integ:
            t = np.cumsum([0 if rng.random() < .15 else rng.choice([.01, .2, 1., 6.]) * rng.uniform(.5, 1.5)
                           for _ in range(n)]) + rng.choice([-7., 0., 2e3])
            E = [(x, x) for x in t]
            X = (jnp.array(t),)
        else:
            # multiples of 1/1024: touching exposures touch exactly in float64
            E, ins, t = [], [], [1. + rng.randrange(100) / 256., 1.25]
            for _ in range(n):
                i = rng.randrange(2)
                s = t[i] + rng.choice([0, 0, rng.randrange(1, 900) / 256., 7.])
                L = rng.choice([0, rng.randrange(1, 8), rng.randrange(8, 700)]) * 2 / 256.
                E.append((s, s + L))
                ins.append(i)
                t[i] = s + L + (rng.randrange(1, 9) / 256. if L == 0 else 0)
            E = [(s + i / 1024., e + i / 1024.) for (s, e), i in zip(E, ins)]  # never simultaneous
            o = list(range(n))
            rng.shuffle(o)
            E, ins = [E[i] for i in o], [ins[i] for i in o]
            X = (jnp.array([(s + e) / 2 for s, e in E]), jnp.array([e - s for s, e in E]), jnp.array(ins))
        lo, hi = min(s for s, _ in E), max(e for _, e in E)
        xt = [rng.uniform(lo - 2, hi + 2) for _ in range(m - 4)]
        xt += [E[0][0], E[-1][1], lo - 1., hi + 30.]
        rng.shuffle(xt)
        y = np.array([rng.gauss(0, 1.5) for _ in range(n)])
        nz = np.array([rng.choice([1e-3, .1, .5]) * rng.uniform(.5, 2) for _ in range(n)])
        return E, X, xt, y, nz

    def call(self, X, xt, y, nz):
        from smolgp.gp import GaussianProcess
        from smolgp.solvers import ParallelStateSpaceSolver
        from smolgp.solvers.integrated import ParallelIntegratedStateSpaceSolver
        sv = None
        if self.par:
            sv = ParallelIntegratedStateSpaceSolver if self.integ else ParallelStateSpaceSolver
        gp = GaussianProcess(self.mk(2) if self.integ else self.mk(), X if self.integ else X[0], diag=nz, solver=sv)
        c = gp.condition(y)
        g = c.gp
        full = g.predict(xt, return_full_state=True)
        return (gp.log_probability(y), c.log_probability, [g.loc, g.variance, *g.predict(xt, return_var=True)],
                list(g.get_all_component_means(return_var=True).values()),
                list(full.get_all_components(return_var=True).values()))

    def discharge(self, rep):
        t0 = time.time()
        rng = random.Random(f"{SEED}|{self.name}")
        f = jax.jit(self.call)
        tot = 0
        for n, m, times in self.sets or [(1, 5, 1), (24, 12, 3 if TIER == "quick" else 20)]:
            for _ in range(times):
                E, X, xt, y, nz = self.draw(rng, n, m)
                inputs = dict(X=[np.asarray(x).tolist() for x in X], y=y.tolist(), noise=nz.tolist(),
                              X_test=list(map(float, xt)), kernel=self.name)
                try:
                    r = jax.tree_util.tree_map(np.asarray, f(X, jnp.array(xt), jnp.array(y), jnp.array(nz)))
                except Exception as e:
                    if blame(e):
                        rep.violate(self.name, dict(summary=f"raises {e!r}"[:400], inputs=inputs,
                                                    function=self.fn), key=self.key)
                    else:
                        rep.errors.append(f"{self.name}: the harness could not call the code: {e!r}"[:400])
                    return
                lp, out = dense(self.ks, E, [(x, x) for x in xt], y, nz)
                tot += 1
                rep.count((self.name, tot))
                got = []
                P = self.prop
                if P in ("C01", "C04", "C06", "C07"):
                    got += [("log_probability", r[0], lp), ("condition().log_probability", r[1], lp)]
                if P in ("C02", "C04", "C06", "C07"):
                    got += [("conditioned mean", r[2][0], out[-1][0]), ("conditioned variance", r[2][1], out[-1][1])]
                if P in ("C03", "C05", "C06", "C07"):
                    got += [("predicted mean", r[2][2], out[-1][2]), ("predicted variance", r[2][3], out[-1][3])]
                if P in ("C12", "C04", "C05") and len(self.ks) > 1:
                    for i, o in enumerate(out[:-1]):
                        if P in ("C12", "C04"):
                            got += [(f"mean of component {i}", r[3][i][0], o[0]),
                                    (f"variance of component {i}", r[3][i][1], o[1])]
                        if P in ("C12", "C05"):
                            got += [(f"predicted mean of component {i}", r[4][i][0], o[2]),
                                    (f"predicted variance of component {i}", r[4][i][1], o[3])]
                sc = 1 + max(np.max(np.abs(y)), max(abs(float(k(np.array(0.)))) for k in self.ks))
                for l, a, b in got:
                    s = sc if "prob" not in l else 1 + abs(b)
                    bad = np.shape(a) != np.shape(b) or not np.all(np.abs(a - b) <= self.tol * s)
                    if bad:
                        nm = f"{self.name}: {l}"
                        nan = bool(np.any(np.isnan(a)))
                        rep.ob(nm, self.fn, "refuted", "float64", time.time() - t0)
                        rep.violate(nm, dict(summary=f"{l}: code {np.asarray(a).tolist()}, required "
                                             f"{np.asarray(b).tolist()}"[:1500], inputs=inputs, function=self.fn),
                                    key=self.key, nan=nan)
                        return
        rep.ob(f"{self.name}: equals the dense Gaussian process of the documented covariance", self.fn,
               "bounded", "float64", time.time() - t0, f"{tot} random data sets")


def pipelines(prop):
    import smolgp.kernels.base as K
    import smolgp.kernels.integrated as I
    from . import solver as S, intsolver as IS
    FN = {"C01": S.FN_LIK, "C02": S.FN_COND, "C03": S.FN_PRED, "C06": S.FN_PAR, "C12": S.FN_COMP,
          "C04": IS.FN4, "C05": IS.FN5, "C07": IS.FN7}[prop]
    out = []
    if prop in ("C01", "C02", "C03", "C06", "C12"):
        for n, mk, ks in kernels(K):
            if prop != "C12" or len(ks) > 1:
                out.append(Pipeline(prop, n, mk, ks, FN, False, prop == "C06"))
    else:
        for n, mk, ks in ikernels(I):
            out.append(Pipeline(prop, n, mk, ks, FN, True, prop == "C07"))
        if prop in ("C04", "C05"):
            out.append(Pipeline(prop, "IntegratedCosine", lambda n: I.IntegratedCosine(
                scale=2.3, sigma=1.2, num_insts=n), [cosine(1.2, 2.3)], FN, True, False,
                key="IntegratedCosine-smoother", sets=[(6, 6, 12)]))
    return out
