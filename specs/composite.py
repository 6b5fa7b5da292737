"""C10: contracts of Sum, Product, Scale, Wrapper and the kernel operators, over
arbitrary operands (specs/generic.py)."""
import numpy as np
import jax.numpy as jnp
from vc import field as fd, linalg as la
from vc.field import El, Cx, EL0, EL1, lift
from vc.contract import Contract, Par, SpecFail
from .generic import Gen, gen_pars, NG
from .kernels import T1, laplace_psd, sc

B = "src/smolgp/kernels/base.py"


def blk(a, b):
    r = la.zeros(a.shape[0] + b.shape[0], a.shape[1] + b.shape[1])
    r[:a.shape[0], :a.shape[1]] = a
    r[a.shape[0]:, a.shape[1]:] = b
    return r


def kron(a, b):
    r = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            for k in range(b.shape[0]):
                for l in range(b.shape[1]):
                    r[i * b.shape[0] + k, j * b.shape[1] + l] = a[i, j] * b[k, l]
    return r


def mats(k, t1, t2, w):
    return (k.design_matrix() * 1.0, k.noise_effect_matrix() * 1.0, k.noise() * 1.0,
            k.stationary_covariance() * 1.0, k.transition_matrix(t1, t2), k.process_noise(t1, t2) * 1.0,
            k.observation_model(t1) * 1.0, k.observation_model(t2) * 1.0, k.observation_matrix(0.0) * 1.0,
            k.reset_matrix(1) * 1.0, k.evaluate(t1, t2), k.evaluate(t2, t1), k.evaluate(t1, t1),
            k.evaluate_diag(t2), k.psd(w))


M = 15
DT = Par("dt", "real2", 1e-1, 3, pins=(0.0,), pin_prob=.15)
W = Par("w", "real", .1, 5)


def laws(o, dt, tag=""):
    F, L, Qc, P, A, Q, h1, h2, h0, R, e12, e21, e11, ed, S = o
    d = F.shape[0]
    return [
        (f"{tag}A = expm(F dt)", A, la.expm(F * dt)),
        (f"{tag}Lyapunov: F Pinf + Pinf F' + L Qc L' = 0", F @ P + P @ F.T + L @ Qc @ L.T, la.zeros(d, d),
         None, numtol(F @ P)),
        (f"{tag}Pinf symmetric", P, P.T),
        (f"{tag}Q = Pinf - A Pinf A'", Q, P - A @ P @ A.T, None, numtol(P)),
        (f"{tag}evaluate(t1,t2) = H(t1) Pinf A' H(t2)'", sc0(e12), (h1 @ P @ A.T @ h2.T)[0, 0]),
        (f"{tag}evaluate symmetric", e12, e21),
        (f"{tag}evaluate(t,t)", sc0(e11), (h1 @ P @ h1.T)[0, 0]),
        (f"{tag}evaluate_diag", sc0(ed), (h2 @ P @ h2.T)[0, 0]),
    ]


def numtol(M):
    """float64 comparisons of matrices that may vanish: relative to the terms they cancel"""
    m = max([abs(x.m) for x in M.reshape(-1) if x.m is not None] + [0])
    r = np.empty((), dtype=object)
    r[()] = El(None, fd.mp.mpf(m) * fd.mp.mpf("1e-14"))
    return r


def sc0(x):
    return np.asarray(x, dtype=object)[()]


def covs(o):
    return o[10], o[11], o[12], o[13]


def eq_covs(o, f, tag):
    names = ("evaluate(t1,t2)", "evaluate(t2,t1)", "evaluate(t,t)", "evaluate_diag")
    return [(f"{tag} {n}", x, y) for n, x, y in zip(names, covs(o), f)]


def c10(K, I):
    out = []
    common = [T1, DT, W]

    def psd_spec(o, w):
        F, P, h0 = o[0], o[3], o[8]
        r = np.empty(1, dtype=object)
        r[0] = laplace_psd(F, P, h0, w)
        return r

    for (d1, r1), (d2, r2) in [((1, 1), (2, 1)), ((2, 1), (1, 1)), ((2, 1), (3, 2))]:
        p1, p2 = gen_pars("a", d1, r1, Par), gen_pars("b", d2, r2, Par)
        tag = f"[{d1},{d2}]"
        for op in ("sum", "product"):
            def call(*a, op=op, d1=d1, d2=d2):
                g1, g2 = Gen("a", *a[:NG]), Gen("b", *a[NG:2 * NG])
                t1, dt, w = a[2 * NG:]
                k = g1 + g2 if op == "sum" else g1 * g2
                if k.dimension != (d1 + d2 if op == "sum" else d1 * d2):
                    raise SpecFail(f"dimension of the {op} is {k.dimension}")
                W_ = jnp.reshape(w, (1,))
                return mats(k, t1, t1 + dt, W_), mats(g1, t1, t1 + dt, W_), mats(g2, t1, t1 + dt, W_)

            def post(args, outs, op=op, d1=d1, d2=d2):
                dt, w = args[2 * NG + 1], args[2 * NG + 2]
                o, o1, o2 = outs[:M], outs[M:2 * M], outs[2 * M:]
                if op == "sum":
                    c = [x + y for x, y in zip(covs(o1), covs(o2))]
                    R = blk(o1[9], o2[9])
                else:
                    c = [x * y for x, y in zip(covs(o1), covs(o2))]
                    R = kron(o1[9], o2[9])
                return (laws(o, dt) + eq_covs(o, c, f"covariance of the {op}:")
                        + [("reset_matrix", o[9], R), ("psd", o[14], psd_spec(o, w))])
            out.append(Contract(
                f"C10.{op}{tag}", ";".join(f"{B}:{'Sum' if op == 'sum' else 'Product'}.{m}" for m in
                                           ("design_matrix", "noise_effect_matrix", "noise",
                                            "stationary_covariance", "transition_matrix",
                                            "process_noise", "observation_model",
                                            "observation_matrix", "reset_matrix", "dimension"))
                + f";{B}:StateSpaceModel.__add__;{B}:StateSpaceModel.__mul__;{B}:StateSpaceModel.evaluate;"
                  f"{B}:StateSpaceModel.evaluate_diag;{B}:StateSpaceModel.psd",
                call, p1 + p2 + common, post, draws=4, numscale=1e-6))

    # scalar multiples, on either side, and wrappers
    p1 = gen_pars("a", 2, 1, Par)
    cpar = Par("c", "pos", .1, 10)

    def call(*a):
        g = Gen("a", *a[:NG])
        c, t1, dt, w = a[NG:]
        W_ = jnp.reshape(w, (1,))
        ks = [c * g, g * c, K.Scale(g, c, name="n"), K.Wrapper.__new__(K.Wrapper)]
        object.__setattr__(ks[3], "kernel", g)
        object.__setattr__(ks[3], "name", "w")
        return tuple(mats(k, t1, t1 + dt, W_) for k in ks + [g])

    def post(args, outs):
        c, dt, w = args[NG], args[NG + 2], args[NG + 3]
        g = outs[4 * M:]
        r = []
        for i, nm in enumerate(("c * k", "k * c", "Scale(k, c)", "Wrapper(k)")):
            o = outs[i * M:(i + 1) * M]
            cc = c if i < 3 else EL1
            r += laws(o, dt, nm + ": ") + eq_covs(o, [x * cc for x in covs(g)], nm + " covariance:")
            r += [(nm + ": reset_matrix", o[9], g[9]), (nm + ": psd", o[14], psd_spec(o, w))]
        return r
    out.append(Contract("C10.scale", ";".join(f"{B}:Scale.{m}" for m in (
        "stationary_covariance", "process_noise", "noise")) + ";" + ";".join(
        f"{B}:Wrapper.{m}" for m in ("design_matrix", "noise_effect_matrix", "noise",
                                    "stationary_covariance", "observation_matrix",
                                    "transition_matrix", "process_noise", "reset_matrix", "dimension"))
        + f";{B}:StateSpaceModel.__rmul__;{B}:StateSpaceModel.__mul__", call, p1 + [cpar] + common, post,
        draws=4, numscale=1e-6))

    # nested expressions
    p3 = [gen_pars(x, d, r, Par) for x, d, r in (("a", 1, 1), ("b", 2, 1), ("e", 2, 2))]
    exprs = {
        "(a + b) * e": (lambda a, b, e, c: (a + b) * e, lambda a, b, e, c: (a + b) * e),
        "c * (a * b) + e": (lambda a, b, e, c: c * (a * b) + e, lambda a, b, e, c: a * b * c + e),
        "a + (b + c * a)": (lambda a, b, e, c: a + (b + c * a), lambda a, b, e, c: a + b + a * c),
        "sum([a, b, e])": (lambda a, b, e, c: sum([a, b, e]), lambda a, b, e, c: a + b + e),
        "(c * a) * (b * c)": (lambda a, b, e, c: (c * a) * (b * c), lambda a, b, e, c: a * b * c * c),
        "c * (c * (a + e))": (lambda a, b, e, c: c * (c * (a + e)), lambda a, b, e, c: (a + e) * c * c),
    }
    for nm, (mk, sp) in exprs.items():
        def call(*a, mk=mk):
            g = [Gen(x, *a[i * NG:(i + 1) * NG]) for i, x in enumerate("abe")]
            c, t1, dt, w = a[3 * NG:]
            W_ = jnp.reshape(w, (1,))
            k = mk(*g, c)
            cv = lambda k: (k.evaluate(t1, t1 + dt), k.evaluate(t1 + dt, t1), k.evaluate(t1, t1),
                            k.evaluate_diag(t1 + dt))
            return (mats(k, t1, t1 + dt, W_),) + tuple(cv(x) for x in g)

        def post(args, outs, sp=sp, nm=nm):
            c, dt, w = args[3 * NG], args[3 * NG + 2], args[3 * NG + 3]
            o = outs[:M]
            ch = [outs[M + 4 * i:M + 4 * i + 4] for i in range(3)]
            want = [sp(*(x[j] for x in ch), c) for j in range(4)]
            return laws(o, dt) + eq_covs(o, want, "covariance:") + [("psd", o[14], psd_spec(o, w))]
        out.append(Contract(f"C10.nested {nm}", f"{B}:Sum;{B}:Product;{B}:Scale;{B}:StateSpaceModel.__radd__",
                            call, p3[0] + p3[1] + p3[2] + [cpar] + common, post, draws=3, numeric=False))

    # concrete operands, including named scalings and integer/float python scalars
    def call(*v):
        w, q, s, t1, dt = v
        s_, e, m, co, cn = K.SHO(w, q, s), K.Exp(q, s), K.Matern52(w), K.Cosine(q), K.Constant(s)
        ks = [s_ + 0.5 * e, 3 * (m * co), cn * e + s_ * 2.0, e + m + co]
        base = [s_, e, m, co, cn]
        cv = lambda k: (k.evaluate(t1, t1 + dt), k.evaluate(t1 + dt, t1), k.evaluate_diag(t1))
        mt = lambda k: (k.stationary_covariance() * 1.0, k.transition_matrix(t1, t1 + dt),
                        k.process_noise(t1, t1 + dt) * 1.0)
        return tuple(cv(k) for k in base), tuple(cv(k) for k in ks), tuple(mt(k) for k in ks)

    def post(args, outs):
        c = [outs[3 * i:3 * i + 3] for i in range(5)]
        k = [outs[15 + 3 * i:18 + 3 * i] for i in range(4)]
        mt = [outs[27 + 3 * i:30 + 3 * i] for i in range(4)]
        half, two, three = lift(1) / lift(2), lift(2), lift(3)
        r = []
        for j, n in enumerate(("evaluate(t1,t2)", "evaluate(t2,t1)", "evaluate_diag")):
            s_, e, m, co, cn = (x[j] for x in c)
            want = [s_ + e * half, m * co * three, cn * e + s_ * two, e + m + co]
            for i, w in enumerate(want):
                r.append((f"concrete expression {i}: {n}", k[i][j], w))
        for i in range(4):
            P, A, Q = mt[i]
            d = P.shape[0]
            r.append((f"concrete expression {i}: Q = Pinf - A Pinf A'", Q, P - A @ P @ A.T,
                      bigtol(args, d)))
        return r

    def bigtol(args, d):
        t = np.empty((d, d), dtype=object)
        w = args[0]
        s2 = args[2] * args[2]
        base = fd.frac(fd.Fraction(1, 10 ** 13))
        for i in range(d):
            for j in range(d):
                t[i, j] = base * (EL1 + s2) * (EL1 + w + w * w + w ** 4 + (EL1 / w) ** 4)
        return t
    out.append(Contract("C10.concrete", f"{B}:Sum;{B}:Product;{B}:Scale", call,
                        [Par("omega", "pos", .3, 3), Par("quality", "pos", .6, 3), Par("sigma", "pos", .3, 3),
                         T1, Par("dt", "real2", .2, 3)], post, draws=4, numscale=1e-6))
    return out
