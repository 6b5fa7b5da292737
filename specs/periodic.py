"""C13: the periodic kernel and its truncated cosine series."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction
from vc import field as fd, linalg as la
from vc.field import El, EL0, EL1, lift
from vc.contract import Contract, Par
from .kernels import T1, sc

mp = fd.mp
B = "src/smolgp/kernels/base.py"
TERMS = 50
GAMMA = Par("gamma", "pos", 0.02, 40)
PERIOD = Par("period", "pos", 0.05, 20)
SIGMA = Par("sigma", "pos", 0.05, 20)


def coef(j, gamma):
    """(2 - [j=0]) I_j(gamma/2) exp(-gamma/2); the series of I_j has positive terms, and the
    terms after the 50th add less than 1e-13 of it for gamma <= 80"""
    if fd.MONLY:
        x = gamma.m / 2
        return El(None, (1 if j == 0 else 2) * mp.besseli(j, x) * mp.exp(-x))
    h = gamma / lift(4)
    s, t = EL0, h ** j * fd.frac(Fraction(1, math.factorial(j)))
    for k in range(TERMS):
        s = s + t
        t = t * h * h * fd.frac(Fraction(1, (k + 1) * (k + 1 + j)))
    return s * lift(1 if j == 0 else 2) * fd.el_exp(-gamma / lift(2))


def ge(got, want, scale):
    """got >= want up to rounding (1e-13 of scale), decided on the witness: 0 where it holds"""
    got, want = np.asarray(got, dtype=object)[()], np.asarray(want, dtype=object)[()]
    if got.f is not None and want.f is not None and got.f == want.f:
        return sc(EL0)
    d = got.m - want.m
    return sc(EL0 if d >= -mp.mpf("1e-13") * abs(scale.m) else El(1 if d else None, d))


def fns(*ms):
    return ";".join(f"{B}:ExpSineSquared.{m}" for m in ms)


FN = fns("__init__", "error_bound", "stationary_covariance", "PeriodicTerm.Ij",
         "PeriodicTerm.stationary_covariance", "PeriodicTerm.transition_matrix",
         "PeriodicTerm.observation_matrix", "PeriodicTerm.process_noise") + \
    f";{B}:Wrapper;{B}:Sum;{B}:StateSpaceModel.evaluate"


def c13(K):
    out = []
    for J in (1, 2, 4, 6, 8):
        def call(per, gam, sig, t1, dt, J=J):
            k = K.ExpSineSquared(period=per, gamma=gam, sigma=sig, order=J)
            t2 = t1 + dt
            return (k.evaluate(t1, t2), k.evaluate(t2, t1), k.evaluate(t1, t1),
                    jnp.asarray(k.error_bound()) * 1.0, k.stationary_covariance() * 1.0,
                    k.design_matrix() * 1.0, k.transition_matrix(t1, t2),
                    k.process_noise(t1, t2) * 1.0, k.observation_matrix(0.0) * 1.0,
                    k.evaluate_diag(t1))

        def post(a, o, J=J):
            per, gam, sig, t1, dt = a
            q = [coef(j, gam) * sig * sig for j in range(J)]
            D = -dt if fd.cmp_lt(dt, EL0) else dt
            w = lift(2) * fd.pi_el() / per
            cov, k0 = EL0, EL0
            for j in range(J):
                cov = cov + q[j] * fd.el_cos(w * D * lift(j))
                k0 = k0 + q[j]
            d = 2 * J
            P, F, A = la.zeros(d, d), la.zeros(d, d), la.zeros(d, d)
            for j in range(J):
                b = 2 * j
                P[b, b] = P[b + 1, b + 1] = q[j]
                F[b, b + 1], F[b + 1, b] = -w * lift(j), w * lift(j)
                c, s = fd.el_cos(w * dt * lift(j)), fd.el_sin(w * dt * lift(j))
                A[b, b] = A[b + 1, b + 1] = c
                A[b, b + 1], A[b + 1, b] = -s, s
            s2 = sig * sig
            tail = s2 - k0
            if tail.m is not None and tail.m < 0:
                tail = EL0
            exact = s2 * El(None, mp.exp(-gam.m * mp.sin(mp.pi * D.m / per.m) ** 2))
            err = El(None, abs(o[0][()].m - exact.m))
            H = np.array([[EL1, EL0] * J], dtype=object)
            tolS = s2 * fd.frac(Fraction(1, 10 ** 14))
            r = [("covariance is the documented cosine series", o[0], sc(cov), None, sc(tolS)),
                 ("symmetric", o[1], sc(cov), None, sc(tolS)),
                 ("zero lag: the truncated series", o[2], sc(k0), None, sc(tolS)),
                 ("kernel diagonal: the truncated series", o[9], sc(k0), None, sc(tolS)),
                 ("error_bound is at least the truncated tail of the series",
                  ge(o[3], tail, s2), sc(EL0)),
                 ("[bounded] error <= error_bound (60 digits)",
                  sc(EL0 if err.m <= o[3][()].m + s2.m * mp.mpf("1e-13") else El(1, err.m)), sc(EL0)),
                 ("[bounded] zero lag <= sigma^2 (60 digits)", ge(s2, o[2], s2), sc(EL0)),
                 ("Pinf: the Bessel coefficients, each twice", o[4], P, None, s2 * fd.frac(Fraction(1, 10 ** 14))),
                 ("feedback: rotations at the harmonics", o[5], F, None, w * fd.frac(Fraction(1, 10 ** 14))),
                 ("transition: rotations at the harmonics", o[6], A, None, fd.frac(Fraction(1, 10 ** 14))),
                 ("no process noise", o[7], la.zeros(d, d)),
                 ("observation of the first component of each term", o[8], H)]
            return r
        out.append(Contract(f"C13.order={J}", FN, call,
                            [PERIOD, GAMMA, SIGMA, T1, Par("dt", "real", 1e-2, 30, pins=(0.0,), pin_prob=.15)],
                            post, draws=4, numscale=1e-9, jit=True))

    # the bound decreases as the order grows, by the coefficient of the added term
    def call2(per, gam, sig):
        r = []
        for J in (1, 2, 3, 4, 5, 8, 12):
            k = K.ExpSineSquared(period=per, gamma=gam, sigma=sig, order=J)
            r.append(jnp.asarray(k.error_bound()) * 1.0)
        return r

    def post2(a, o):
        per, gam, sig = a
        JJ = (1, 2, 3, 4, 5, 8, 12)
        s2 = sig * sig
        r = []
        for n in range(len(JJ) - 1):
            dq = EL0
            for j in range(JJ[n], JJ[n + 1]):
                dq = dq + coef(j, gam) * s2
            lo, hi = o[n + 1][()], o[n][()]
            r.append((f"bound of order {JJ[n + 1]} <= bound of order {JJ[n]}",
                      ge(hi, lo + (dq if lo.m > 0 and fd.MONLY is False else EL0), s2), sc(EL0)))
        return r
    out.append(Contract("C13.monotone bound", FN, call2, [PERIOD, GAMMA, SIGMA], post2, draws=4,
                        jit=True, numeric=True))
    out.append(Orders(K))
    return out


class Orders:
    """bounded: the number of terms for requested and automatic orders"""
    numeric = False
    name, fn = "C13.order selection", fns("__init__")

    def __init__(self, K):
        self.K = K

    def discharge(self, rep):
        import warnings
        K = self.K
        cases = []
        for J in list(range(1, 17)) + [24]:
            cases.append((dict(gamma=1.0, order=J), J))
            cases.append((dict(gamma=50.0, order=J), J))
        for g in [1e-3, .1, .5, 1., 1.5, 1.999, 2., 2.001, 2.5, 4., 6., 7.9, 7.999, 8., 8.001, 9., 16.,
                  20., 31., 31.99, 32., 32.01, 33., 40., 60., 100., 1e3]:
            ell = math.sqrt(2 / g)
            cases.append((dict(gamma=g), 4 if ell >= 1 else 6 if ell >= .5 else 8 if ell >= .25 else 16))
        bad = None
        for kw, J in cases:
            for conv in (float, jnp.asarray):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        k = K.ExpSineSquared(period=2.5, **{**kw, "gamma": conv(kw["gamma"])})
                        got = (int(k.dimension), k.stationary_covariance().shape[0])
                        n = int(np.sum(np.asarray(k.observation_matrix(0.0))))
                    except Exception as e:
                        got, n = repr(e)[:200], None
                rep.count(("order", str(kw)))
                if got != (2 * J, 2 * J) or n != J:
                    bad = bad or dict(summary=f"{kw}: dimension {got}, {n} terms; required {J} terms",
                                      inputs={k: float(v) for k, v in kw.items()}, function=self.fn)
        rep.ob(self.name, self.fn, "refuted" if bad else "bounded", "enumeration", 0,
               f"{len(cases)} orders and automatic choices around every threshold")
        if bad:
            rep.violate(self.name, bad)
