"""C11: contracts of the integrated kernels and of the Van Loan helpers."""
import numpy as np
import jax.numpy as jnp
import equinox as eqx
from vc import field as fd, linalg as la
from vc.field import El, Cx, EL0, EL1, lift
from vc.contract import Contract, Par, SpecFail
from .generic import Gen
from .kernels import T1, SCALE, SIG, OMEGA, QUAL, KS, moderate

mp = fd.mp
B = "src/smolgp/kernels/integrated.py"
HP = "src/smolgp/helpers.py"


def aug(F, ni):
    d = F.shape[0]
    r = la.zeros(d + ni, d + ni)
    r[:d, :d] = F
    for i in range(ni):
        r[d + i, 0] = EL1
    return r


def van_loan(F, W, dt):
    """int_0^dt e^{Fs} W e^{F's} ds, from the exponential of one block matrix"""
    d = F.shape[0]
    C = la.zeros(2 * d, 2 * d)
    C[:d, :d] = -F
    C[:d, d:] = W
    C[d:, d:] = F.T
    E = la.expm(C * dt)
    return E[d:, d:].T @ E[:d, d:]


def q_aug(F, P, dt, ni):
    """accumulated covariance of the augmented state over dt, for invertible stationary F
    (no growing exponentials: usable on the witness at any lag)"""
    d = F.shape[0]
    A = la.expm(F * dt)
    I = la.eye(d)
    Ph = la.solve(F, A - I)
    Phh = la.solve(F, Ph - I * dt)
    Q = la.zeros(d + ni, d + ni)
    Q[:d, :d] = P - A @ P @ A.T
    xz = Ph @ P[:, :1] - A @ P @ Ph[:1, :].T
    zz = (lift(2) * (Phh[:1, :] @ P[:, :1]) - Ph[:1] @ P @ Ph[:1].T)[0, 0]
    for i in range(ni):
        Q[:d, d + i:d + i + 1] = xz
        Q[d + i:d + i + 1, :d] = xz.T
        for j in range(ni):
            Q[d + i, d + j] = zz
    return Q


def tol_aug(s, args, d, ni):
    p = s.P(args)
    r = s.rate(p)
    e = list(range(d)) + [-1] * ni
    if s.cls == "IntegratedCosine":
        e = [0] * d + [-1] * ni
    t = np.empty((d + ni, d + ni), dtype=object)
    for i in range(d + ni):
        for j in range(d + ni):
            t[i, j] = fd.frac(fd.Fraction(1, 10 ** 14)) * p["sigma"] ** 2 * r ** (e[i] + e[j])
    return t


def nat_A(s, args, d, ni):
    p = s.P(args)
    r = s.rate(p)
    e = list(range(d)) + [-1] * ni
    t = np.empty((d + ni, d + ni), dtype=object)
    for i in range(d + ni):
        for j in range(d + ni):
            t[i, j] = fd.frac(fd.Fraction(1, 10 ** 14)) * r ** (e[i] - e[j])
    return t


def lib():
    one = lambda p: EL1 / p["scale"]
    return [(KS("IntegratedSHO", [OMEGA, QUAL, SIG], None, rate=lambda p: p["omega"]), "SHO"),
            (KS("IntegratedExp", [SCALE, SIG], None, rate=one), "Exp"),
            (KS("IntegratedMatern32", [SCALE, SIG], None, rate=one), "Matern32"),
            (KS("IntegratedMatern52", [SCALE, SIG], None, rate=one), "Matern52"),
            (KS("IntegratedCosine", [SCALE, SIG], None, rate=one), "Cosine")]


def fns(cls, *ms):
    return ";".join(f"{B}:{cls}.{m}" for m in ms)


BASEFN = ("design_matrix", "noise_effect_matrix", "noise", "stationary_covariance",
          "transition_matrix", "process_noise", "integrated_transition_matrix",
          "integrated_process_noise", "observation_matrix", "reset_matrix", "dimension")


def obs_spec(d, ni, inst, delta):
    r = la.zeros(1, d + ni)
    if delta is None:
        r[0, 0] = EL1
    else:
        r[0, d + inst] = EL1 / delta
    return r


def c11(K, I, H):
    out = []
    DT = Par("dt", "real2", 1e-2, 30, pins=(0.0,), pin_prob=.15)
    DEL = Par("delta", "pos", 1e-2, 10, pins=(0.0,), pin_prob=.3)
    for s, base in lib():
        n = len(s.pars)
        for ni in (1, 2, 3):
            if ni == 3 and s.cls not in ("IntegratedExp", "IntegratedSHO"):
                continue

            def call(*a, s=s, n=n, ni=ni, base=base):
                k = s.make2(I, a[:n], ni)
                b = getattr(K, base)(**{p.name: v for p, v in zip(s.pars, a[:n])})
                t1, dt, de = a[n:]
                t2 = t1 + dt
                X1, X2 = (t1, de, 0), (t2, de, ni - 1)
                sq = lambda M: M * 1.0
                res = (sq(k.design_matrix()), sq(k.noise_effect_matrix()), sq(k.noise()),
                       sq(k.stationary_covariance()), k.transition_matrix(t1, t2),
                       sq(k.process_noise(t1, t2)), k.transition_matrix(X1, X2),
                       sq(k.process_noise(X1, X2)),
                       sq(k.process_noise(t1, t2, force_numerical=True)))
                ob = tuple(k.observation_model((t1, de, jnp.asarray(i))) for i in range(ni))
                rs = tuple(k.reset_matrix(jnp.asarray(i)) for i in range(ni))
                ob2 = (k.observation_model(t1), k.observation_model((t1, de, 0), component=k.name),
                       k.observation_model((t1, de, 0), component="other"))
                bs = (sq(b.design_matrix()), sq(b.noise_effect_matrix()), sq(b.noise()),
                      sq(b.stationary_covariance()), b.transition_matrix(t1, t2),
                      sq(b.process_noise(t1, t2)))
                if k.dimension != b.dimension + ni:
                    raise SpecFail("dimension")
                return res, ob, rs, ob2, bs

            def post(args, outs, s=s, n=n, ni=ni):
                dt, de = args[n + 1], args[n + 2]
                F, L, Qc, P, A, Q, Ax, Qx, Qn = outs[:9]
                ob, rs = outs[9:9 + ni], outs[9 + ni:9 + 2 * ni]
                ob2, bs = outs[9 + 2 * ni:12 + 2 * ni], outs[12 + 2 * ni:]
                bF, bL, bQc, bP, bA, bQ = bs
                d = bF.shape[0]
                zero = fd.cmp_eq(de, EL0)
                Fa = aug(bF, ni)
                La = np.concatenate([bL, la.zeros(ni, bL.shape[1])])
                tol, nat = tol_aug(s, args[:n], d, ni), nat_A(s, args[:n], d, ni)
                WQ = q_aug(bF, bP, dt, ni)
                r = [("design_matrix augments F with one integral row per instrument", F, Fa),
                     ("noise_effect_matrix", L, La), ("noise", Qc, bQc),
                     ("stationary base block", P[:d, :d], bP),
                     ("stationary cross block", P[:d, d:], la.zeros(d, ni)),
                     ("transition_matrix = expm(F_aug dt)", A, la.expm(Fa * dt), None, nat),
                     ("transition base block untouched", A[:d, :d], bA),
                     ("process_noise = accumulated covariance", Q, WQ, tol),
                     ("process_noise base block untouched", Q[:d, :d], bQ),
                     ("process_noise, numerical route", Qn, WQ, tol, tol * lift(100)),
                     ("transition_matrix of tuple coordinates", Ax, A),
                     ("process_noise of tuple coordinates", Qx, Q)]
                if not fd.MONLY:
                    r.append(("lemma: Van Loan integral = stationarity formula",
                              van_loan(Fa, La @ bQc @ La.T, dt), WQ))
                for i in range(ni):
                    r.append((f"observation of instrument {i}", ob[i],
                              obs_spec(d, ni, i, None if zero else de)))
                    w = la.eye(d + ni)
                    w[d + i, d + i] = EL0
                    r.append((f"reset of instrument {i} zeroes its integral only", rs[i], w))
                r.append(("observation of the latent process", ob2[0], obs_spec(d, ni, 0, None)))
                r.append(("observation of the own component", ob2[1],
                          obs_spec(d, ni, 0, None if zero else de)))
                r.append(("observation of another component", ob2[2], la.zeros(1, d + ni)))
                return r
            out.append(Contract(
                f"C11.{s.cls}[insts={ni}]", fns("IntegratedStateSpaceModel", *BASEFN)
                + f";{B}:{s.cls};{HP}:VanLoan;{HP}:Phibar_from_VanLoan", call,
                s.pars + [T1, DT, DEL], post, draws=10 if ni == 1 else 4,
                numeric=(ni == 2), numscale=1e-7, numvalid=lambda *v, s=s: moderate(s, 300)(*v[:-1])))

    # an arbitrary base kernel observed through its first state
    class GenInt(I.IntegratedStateSpaceModel):
        def __init__(self, base, ni):
            self.base_model, self.num_insts, self.name = base, ni, "int"

    for d, ni in ((1, 1), (2, 2), (3, 1)):
        def call(*a, d=d, ni=ni):
            H0 = jnp.zeros((1, d)).at[0, 0].set(1.0)
            b = Gen("b", *a[:4], H0)
            k = GenInt(b, ni)
            t1, dt = a[4:6]
            return (k.design_matrix(), k.noise_effect_matrix(), k.noise(), k.stationary_covariance(),
                    k.transition_matrix(t1, t1 + dt), k.process_noise(t1, t1 + dt),
                    b.design_matrix(), b.noise_effect_matrix(), b.noise(), b.stationary_covariance())

        def post(args, outs, d=d, ni=ni):
            F, L, Qc, P, A, Q, bF, bL, bQc, bP = outs
            dt = args[5]
            Fa = aug(bF, ni)
            La = np.concatenate([bL, la.zeros(ni, bL.shape[1])])
            return [("design_matrix", F, Fa), ("noise_effect_matrix", L, La), ("noise", Qc, bQc),
                    ("stationary base block", P[:d, :d], bP),
                    ("transition_matrix = expm(F_aug dt)", A, la.expm(Fa * dt)),
                    ("process_noise = Van Loan integral", Q, van_loan(Fa, La @ bQc @ La.T, dt))]
        out.append(Contract(f"C11.generic base[d={d},insts={ni}]", fns("IntegratedStateSpaceModel", *BASEFN)
                            + f";{HP}:VanLoan;{HP}:Phibar_from_VanLoan", call,
                            [Par("V", "real", .3, 3, shape=(d, d)), Par("lam", "neg", .2, 2, shape=(d,)),
                             Par("L", "real", .3, 3, shape=(d, 1)), Par("C", "pos", .3, 3, shape=(1, 1)), T1,
                             Par("dt", "real2", 1e-2, 3, pins=(0.0,), pin_prob=.1)], post,
                            draws=4, numeric=False, anyroot=True))
    # helpers on arbitrary matrices
    for d in (1, 2, 3):
        def call(V, lam, L, C, dt):
            F = V @ jnp.diag(lam) @ jnp.linalg.inv(V)
            Qc = C + C.T
            v = H.VanLoan(F, L, Qc, dt)
            return F, Qc, H.Q_from_VanLoan(F, L, Qc, dt), H.Phibar_from_VanLoan(F, dt), v["F3"], v["H2"], v["K1"]

        def post(args, outs, d=d):
            V, lam, L, C, dt = args
            F, Qc, Q, Ph, F3, H2, K1 = outs
            W = L @ Qc @ L.T
            big = la.zeros(2 * d, 2 * d)
            big[:d, :d] = F
            big[:d, d:] = la.eye(d)
            # x and its integral: state (x, int x)
            Fa = la.zeros(2 * d, 2 * d)
            Fa[:d, :d] = F
            Fa[d:, :d] = la.eye(d)
            Wa = la.zeros(2 * d, 2 * d)
            Wa[:d, :d] = W
            Qa = van_loan(Fa, Wa, dt)
            M = F3.T @ K1
            return [("Q_from_VanLoan", Q, van_loan(F, W, dt)),
                    ("Phibar_from_VanLoan = integral of expm(F s)", Ph, la.expm(big * dt)[:d, d:]),
                    ("VanLoan: Cov[x, int x] = F3' H2", F3.T @ H2, Qa[:d, d:]),
                    ("VanLoan: Var[int x] = F3' K1 + (F3' K1)'", M + M.T, Qa[d:, d:])]
        out.append(Contract(f"C11.helpers[d={d}]", f"{HP}:Q_from_VanLoan;{HP}:Phibar_from_VanLoan;{HP}:VanLoan",
                            call, [Par("V", "real", .3, 3, shape=(d, d)), Par("lam", "neg", .2, 2, shape=(d,)),
                                   Par("L", "real", .3, 3, shape=(d, 1)), Par("C", "real", .3, 3, shape=(1, 1)),
                                   Par("dt", "real2", .1, 3, pins=(0.0,))], post, draws=3, numeric=False))
    return out


def _make2(self, I, vals, ni):
    return getattr(I, self.cls)(**{p.name: v for p, v in zip(self.pars, vals)}, num_insts=ni)


KS.make2 = _make2
