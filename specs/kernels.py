"""Contracts of the kernel functions (C08, C09, C14): one-argument-list tracing of
the real classes in smolgp.kernels.base."""
import numpy as np
import jax.numpy as jnp
from vc import field as fd, linalg as la
from vc.field import El, Cx, EL0, EL1, lift, el_exp, el_sin, el_cos, el_sinh, el_cosh, el_sqrt
from vc.contract import Contract, Par

mp = fd.mp
B = "src/smolgp/kernels/base.py"


def sc(x):
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def absdt(a, b):
    return a - b if fd.cmp_lt(b, a) else b - a


# ---- documented covariance functions, k(params, D) ----
def k_const(p, D):
    return p["sigma"] ** 2


def k_exp(p, D):
    return p["sigma"] ** 2 * el_exp(-D / p["scale"])


def k_m32(p, D):
    f = el_sqrt(lift(3)) / p["scale"]
    return p["sigma"] ** 2 * (EL1 + f * D) * el_exp(-f * D)


def k_m52(p, D):
    f = el_sqrt(lift(5)) / p["scale"]
    x = f * D
    return p["sigma"] ** 2 * (EL1 + x + x * x / lift(3)) * el_exp(-x)


def k_cos(p, D):
    return p["sigma"] ** 2 * el_cos(lift(2) * fd.pi_el() * D / p["scale"])


def k_sho(p, D):
    s2, w, q = p["sigma"] ** 2, p["omega"], p["quality"]
    half = lift(1) / lift(2)
    if fd.cmp_eq(q, half):
        return s2 * el_exp(-w * D) * (EL1 + w * D)
    u = EL1 - EL1 / (lift(4) * q * q)
    e = el_exp(-w * D / (lift(2) * q))
    if fd.cmp_lt(q, half):
        n = el_sqrt(-u)
        return s2 * e * (el_cosh(n * w * D) + el_sinh(n * w * D) / (lift(2) * n * q))
    n = el_sqrt(u)
    return s2 * e * (el_cos(n * w * D) + el_sin(n * w * D) / (lift(2) * n * q))


def k_matern(nu):
    from math import factorial as F
    pp = int(nu - 0.5)

    def k(p, D):
        lam = el_sqrt(lift(2 * pp + 1)) / p["scale"]
        x = lift(2) * lam * D
        s = EL0
        for i in range(pp + 1):
            s = s + fd.frac(fd.Fraction(F(pp + i), F(i) * F(pp - i))) * x ** (pp - i)
        return p["sigma"] ** 2 * el_exp(-lam * D) * s * fd.frac(fd.Fraction(F(pp), F(2 * pp)))
    return k


SIG = Par("sigma", "pos", 0.05, 20)
SCALE = Par("scale", "pos", 0.05, 20)
OMEGA = Par("omega", "pos", 0.05, 20)
QUAL = Par("quality", "pos", 0.02, 40, pins=(0.5,), pin_prob=0.25,
           near=(0.5, (2e-5, 1e-4, 1e-3, 1e-2, 0.1)))
OMEGA_DT = None


class KS:
    """specification of one kernel class"""

    def __init__(self, cls, pars, k, kw=None, rate=None, label=None, stable=True, psd=True,
                 natural=None):
        self.cls, self.pars, self.k, self.kw = cls, pars, k, kw or {}
        self.rate = rate            # the natural rate of the process, per parameter dict
        self.label = label or cls
        self.stable, self.psd = stable, psd

    def make(self, K, vals):
        return getattr(K, self.cls)(**{p.name: v for p, v in zip(self.pars, vals)}, **self.kw)

    def P(self, args):
        return {p.name: a for p, a in zip(self.pars, args)}


def lib():
    one = lambda p: EL1 / p["scale"]
    ks = [
        KS("Constant", [SIG], k_const, rate=lambda p: EL1, stable=False, psd=False),
        KS("Exp", [SCALE, SIG], k_exp, rate=one),
        KS("Matern32", [SCALE, SIG], k_m32, rate=one),
        KS("Matern52", [SCALE, SIG], k_m52, rate=one),
        KS("Cosine", [SCALE, SIG], k_cos, rate=one, stable=False, psd=False),
        KS("SHO", [OMEGA, QUAL, SIG], k_sho, rate=lambda p: p["omega"]),
    ]
    for nu in (0.5, 1.5, 2.5, 3.5, 4.5):
        ks.append(KS("Matern", [SCALE, SIG], k_matern(nu), kw=dict(nu=nu), rate=one,
                     label=f"Matern[nu={nu}]"))
    return ks


def dt_par(name="dt"):
    return Par(name, "real2", 1e-2, 30, pins=(0.0,), pin_prob=0.2)


T1 = Par("t1", "real", 0.1, 50, pins=(0.0,), pin_prob=0.1)


def tolmat(s, args, d):
    """natural (amplitude and rate) scale of each entry of Q, times 1e-14"""
    p = s.P(args)
    r = s.rate(p)
    t = np.empty((d, d), dtype=object)
    for i in range(d):
        for j in range(d):
            t[i, j] = fd.frac(fd.Fraction(1, 10 ** 14)) * p["sigma"] ** 2 * r ** (i + j)
    return t


def natA(s, args, d):
    """natural scale of the entries of the transition matrix, times 1e-14"""
    r = s.rate(s.P(args))
    t = np.empty((d, d), dtype=object)
    for i in range(d):
        for j in range(d):
            t[i, j] = fd.frac(fd.Fraction(1, 10 ** 14)) * r ** (i - j)
    return t


def moderate(s, lim):
    """rate*dt (the last parameter) below lim"""
    def ok(*v):
        p = dict(zip([q.name for q in s.pars], v))
        if "omega" in p:
            r = p["omega"] * max(1.0, 1 / p["quality"])
        elif "scale" in p:
            r = 5.0 / p["scale"]
        else:
            r = 1.0
        return r * abs(v[-1]) < lim
    return ok


def c09(K, H):
    """exact discretisation of the SDE"""
    out = []
    for s in lib():
        n = len(s.pars)

        def call(*a, s=s, n=n):
            k = s.make(K, a[:n])
            t1, dt = a[n], a[n + 1]
            t2 = t1 + dt
            return (k.design_matrix() * 1.0, k.stationary_covariance() * 1.0, k.noise() * 1.0,
                    k.noise_effect_matrix() * 1.0, k.transition_matrix(t1, t2),
                    k.process_noise(t1, t2) * 1.0)

        def post(args, outs, s=s, n=n):
            F, P, Qc, L, A, Q = outs
            dt = args[n + 1]
            d = F.shape[0]
            tol = tolmat(s, args, d)
            Z = la.zeros(d, d)
            return [
                ("transition_matrix = expm(F dt)", A, la.expm(F * dt), None, natA(s, args, d)),
                ("Pinf symmetric", P, P.T),
                ("F Pinf + Pinf F' + L Qc L' = 0", F @ P + P @ F.T + L @ Qc @ L.T, Z, tol),
                ("process_noise = Pinf - A Pinf A'", Q, P - A @ P @ A.T, tol),
                ("process_noise symmetric", Q, Q.T),
            ]
        out.append(Contract(
            f"C09.{s.label}.discretisation",
            f"{B}:{s.cls}.transition_matrix;{B}:{s.cls}.process_noise;{B}:{s.cls}.design_matrix;"
            f"{B}:{s.cls}.stationary_covariance;{B}:{s.cls}.noise;{B}:{s.cls}.noise_effect_matrix",
            call, s.pars + [T1, dt_par()], post, numvalid=moderate(s, 60)))

        # identity at zero lag, semigroup under splitting
        def call2(*a, s=s, n=n):
            k = s.make(K, a[:n])
            t, u, v = a[n], a[n + 1], a[n + 2]
            return (k.transition_matrix(t, t), k.process_noise(t, t) * 1.0,
                    k.transition_matrix(t, t + u), k.transition_matrix(t + u, t + u + v),
                    k.transition_matrix(t, t + u + v),
                    k.process_noise(t, t + u) * 1.0, k.process_noise(t + u, t + u + v) * 1.0,
                    k.process_noise(t, t + u + v) * 1.0)

        def post2(args, outs, s=s, n=n):
            A0, Q0, Au, Av, Auv, Qu, Qv, Quv = outs
            d = A0.shape[0]
            # a masked entry of Qu or Qv is propagated: compare at a few tolerances
            tol = tolmat(s, args, d) * fd.lift(4)
            return [("A(t,t) = I", A0, la.eye(d)), ("Q(t,t) = 0", Q0, la.zeros(d, d)),
                    ("A(t,t+u+v) = A(t+u,t+u+v) A(t,t+u)", Auv, Av @ Au),
                    ("Q(u+v) = A(v) Q(u) A(v)' + Q(v)", Quv, Av @ Qu @ Av.T + Qv, tol)]
        up = Par("u", "real2", 1e-1, 5)
        vp = Par("v", "real2", 1e-1, 5)
        out.append(Contract(f"C09.{s.label}.splitting",
                            f"{B}:{s.cls}.transition_matrix;{B}:{s.cls}.process_noise",
                            call2, s.pars + [T1, up, vp], post2, numeric=False, draws=5,
                            valid=lambda *v, s=s: moderate(s, 12)(*v[:-1])
                            and moderate(s, 12)(*v[:-2], v[-1])))

        # default and Van Loan routes of the base class, and Q_from_VanLoan
        def call3(*a, s=s, n=n):
            k = s.make(K, a[:n])
            t1, dt = a[n], a[n + 1]
            S = K.StateSpaceModel
            return (k.design_matrix() * 1.0, k.stationary_covariance() * 1.0,
                    S.transition_matrix(k, t1, t1 + dt),
                    S.process_noise(k, t1, t1 + dt),
                    S.process_noise(k, t1, t1 + dt, use_van_loan=True),
                    k.transition_matrix(t1, t1 + dt))

        def post3(args, outs, s=s, n=n):
            F, P, A, Q, Qv, Ak = outs
            E = la.expm(F * args[n + 1])
            d = F.shape[0]
            tol = tolmat(s, args, d)
            W = P - E @ P @ E.T
            return [("default transition_matrix = expm(F dt)", A, E, None, natA(s, args, d)),
                    ("default process_noise", Q, W, None, tol),
                    ("Van Loan process_noise", Qv, W, None, tol)]
        out.append(Contract(f"C09.{s.label}.default_routes",
                            f"{B}:StateSpaceModel.transition_matrix;{B}:StateSpaceModel.process_noise;"
                            "src/smolgp/helpers.py:Q_from_VanLoan",
                            call3, s.pars + [T1, Par("dt", "real2", 1e-2, 2, pins=(0.0,))], post3,
                            draws=5, numscale=1e-6, numvalid=lambda *v, s=s: moderate(s, 5)(*v) and
                            (s.label == "SHO" or .5 < v[0] < 5)))
    return out


def c08(K, H):
    out = []
    for s in lib():
        n = len(s.pars)

        def call(*a, s=s, n=n):
            k = s.make(K, a[:n])
            t1, t2 = a[n], a[n] + a[n + 1]
            return (k.evaluate(t1, t2), k.evaluate(t2, t1), k.evaluate(t1, t1),
                    k.evaluate_diag(t1))

        def post(args, outs, s=s, n=n):
            p = s.P(args[:n])
            dt = args[n + 1]
            D = -dt if fd.cmp_lt(dt, EL0) else dt
            w = sc(s.k(p, D))
            s2 = sc(p["sigma"] ** 2)
            e12, e21, e11, dg = outs
            return [("evaluate(t1,t2) = documented covariance", e12, w),
                    ("evaluate is symmetric", e21, w),
                    ("evaluate(t,t) = sigma^2", e11, s2),
                    ("evaluate_diag(t) = sigma^2", dg, s2)]
        out.append(Contract(f"C08.{s.label}.evaluate",
                            f"{B}:StateSpaceModel.evaluate;{B}:StateSpaceModel.evaluate_diag;"
                            f"{B}:StateSpaceModel.observation_model;"
                            f"{B}:{s.cls}.stationary_covariance;{B}:{s.cls}.transition_matrix;"
                            f"{B}:{s.cls}.observation_matrix",
                            call, s.pars + [T1, Par("dt", "real", 1e-2, 30, pins=(0.0,), pin_prob=.15)],
                            post))

        # arrays of coordinates: the covariance matrix and the vector of variances
        def call2(*a, s=s, n=n):
            k = s.make(K, a[:n])
            X1 = jnp.stack([a[n], a[n + 1], a[n + 2]])
            X2 = jnp.stack([a[n + 1], a[n]])
            return k(X1, X2), k(X1)

        def post2(args, outs, s=s, n=n):
            p = s.P(args[:n])
            x = args[n:n + 3]
            y = [x[1], x[0]]
            M = np.empty((3, 2), dtype=object)
            for i in range(3):
                for j in range(2):
                    M[i, j] = s.k(p, absdt(x[i], y[j]))
            v = np.empty(3, dtype=object)
            v[:] = [p["sigma"] ** 2] * 3
            return [("kernel(X1, X2) is the matrix of covariances", outs[0], M),
                    ("kernel(X) is the vector of variances", outs[1], v)]
        xs = [Par(f"x{i}", "real", 0.1, 20) for i in range(3)]
        out.append(Contract(f"C08.{s.label}.call", f"{B}:{s.cls}.evaluate;{B}:{s.cls}.evaluate_diag",
                            call2, s.pars + xs, post2, draws=5))
    return out


def c14(K, H):
    """psd = FT / 2 pi of the covariance: (1/pi) Re of its one-sided Laplace transform at i w"""
    out = []
    for s in lib():
        if not s.psd:
            continue
        n = len(s.pars)

        def call(*a, s=s, n=n):
            k = s.make(K, a[:n])
            w = jnp.stack([a[n], -a[n], a[n + 1]])
            return (k.psd(w), k.psd(w[:1]), k.design_matrix() * 1.0,
                    k.stationary_covariance() * 1.0, k.observation_matrix(0.0) * 1.0)

        def post(args, outs, s=s, n=n):
            S, S1, F, P, Hm = outs
            want = [laplace_psd(F, P, Hm, w) for w in (args[n], -args[n], args[n + 1])]
            w3 = np.empty(3, dtype=object)
            w3[:] = want
            o = [("psd(w) = FT of the covariance / 2 pi", S, w3),
                 ("psd is even", S[0:1], S[1:2]),
                 ("psd of one frequency", S1, w3[:1])]
            if s.cls == "Exp":
                p = s.P(args[:n])
                lam = EL1 / p["scale"]
                o.append(("psd closed form", S[:1],
                          np.array([p["sigma"] ** 2 * lam / fd.pi_el() / (lam * lam + args[n] ** 2)],
                                   dtype=object)))
            if s.cls == "SHO":
                p = s.P(args[:n])
                w0, q, w = p["omega"], p["quality"], args[n]
                o.append(("psd closed form", S[:1], np.array(
                    [p["sigma"] ** 2 * w0 ** 3 / q / fd.pi_el()
                     / ((w * w - w0 * w0) ** 2 + w * w * w0 * w0 / q / q)], dtype=object)))
            return o
        out.append(Contract(f"C14.{s.label}.psd", f"{B}:StateSpaceModel.psd;{B}:{s.cls}.noise;"
                            f"{B}:{s.cls}.noise_effect_matrix;{B}:{s.cls}.design_matrix",
                            call, s.pars + [Par("w1", "real", .01, 30, pins=(0.0,)),
                                            Par("w2", "real", .01, 30)], post, draws=6))
    return out


def laplace_psd(F, P, Hm, w):
    d = F.shape[0]
    M = np.empty((d, d), dtype=object)
    for i in range(d):
        for j in range(d):
            M[i, j] = Cx(-F[i, j], w if i == j else EL0)
    R = la.solve(M, np.array([[Cx.of(x) for x in r] for r in (P @ Hm.T)], dtype=object))
    acc = Cx(EL0, EL0)
    for i in range(d):
        acc = acc + R[i, 0] * Hm[0, i]
    return acc.re / fd.pi_el()
