"""C17: the dense reference kernels, against the exact (double) averages of the oscillator
covariance, for every relation between the two intervals."""
import numpy as np
import jax.numpy as jnp
from fractions import Fraction
from vc import field as fd, linalg as la
from vc.field import El, Cx, EL0, EL1, lift
from vc.scenario import Scenario, Point, Free, Int, Sym
from .kernels import k_sho, sc

mp = fd.mp
B = "src/smolgp/kernels/dense.py"
I_ = Cx(EL0, EL1)


def cexp(z):
    return fd.el_exp(z)


class Osc:
    """k(D) = Re(c exp(lam D)), Q > 1/2"""

    def __init__(self, S, w, Q):
        eta = fd.el_sqrt(EL1 - EL1 / (lift(4) * Q * Q))
        self.lam = Cx(-w / (lift(2) * Q), eta * w)
        s2 = S * w * Q
        self.c = Cx(s2, -s2 / (lift(2) * eta * Q))

    def k(self, D):
        return (self.c * cexp(self.lam * D)).re

    def avg(self, e, f):
        (s1, t1, z1), (s2, t2, z2) = e, f
        ab = lambda u, v: v - u if fd.cmp_lt(u, v) else u - v
        lam, c = self.lam, self.c
        if z1 and z2:
            return self.k(ab(s1, s2))
        if z1 or z2:
            t, (s, u) = (s1, (s2, t2)) if z1 else (s2, (s1, t1))

            def G(x, y):     # int_y^x k
                if fd.cmp_lt(x, y):
                    return (Cx.of(EL1) - cexp(lam * (y - x))) / lam
                return (cexp(lam * (x - y)) - Cx.of(EL1)) / lam
            return (c * (G(t, s) - G(t, u))).re / (u - s)

        def g(u, v):
            x = ab(u, v)
            return (cexp(lam * x) - lam * x) / (lam * lam)
        return (c * (g(t1, s2) + g(s1, t2) - g(t1, t2) - g(s1, s2))).re / ((t1 - s1) * (t2 - s2))


# name, (start, end) ranks of the two intervals; equal ranks: zero length
REL = [("separate", (0, 1), (2, 3)), ("touching", (0, 1), (1, 2)), ("partly overlapping", (0, 2), (1, 3)),
       ("nested", (0, 3), (1, 2)), ("same start", (0, 1), (0, 2)), ("same end", (0, 2), (1, 2)),
       ("identical", (0, 1), (0, 1)), ("point outside", (0, 1), (2, 2)),
       ("point inside", (0, 2), (1, 1)), ("point at start", (0, 1), (0, 0)),
       ("point at end", (0, 1), (1, 1)), ("two points", (0, 0), (1, 1)), ("same point", (0, 0), (0, 0)),
       # coincidences of lengths and midpoints
       ("separate, equal lengths", (0, 1), (2, {2: 1, 1: 1, 0: -1})),
       ("touching, equal lengths", (0, 1), (1, {1: 2, 0: -1})),
       ("equal lengths, any overlap", (0, {0: 1, 2: 1, 1: -1}), (1, 2)),
       ("nested, equal midpoints", (0, {2: 1, 1: 1, 0: -1}), (1, 2)),
       ("point at the midpoint", (0, {1: 2, 0: -1}), (1, 1)),
       ("one length twice the other", (0, {1: 2, 0: -1}), (2, {2: 1, 1: 1, 0: -1}))]


def steps(rng, n):
    """dyadic times whose steps are comparable with the oscillation period"""
    t = rng.randrange(-64, 64) / 32
    s = []
    for _ in range(n):
        s.append(t)
        t += rng.choice([2, 9, 40, 160]) / 64 + rng.randrange(1, 64) / 4096
    return s


def lin(p):
    """a time: the rank of a symbol, or a combination {symbol: integer}"""
    return {k: Fraction(c) for k, c in (p.items() if isinstance(p, dict) else [(p, 1)])}


def add(a, b, ca=1, cb=1):
    r = {k: Fraction(ca) * c for k, c in a.items()}
    for k, c in b.items():
        r[k] = r.get(k, Fraction(0)) + Fraction(cb) * c
    return {k: c for k, c in r.items() if c}


def affine(p, q):
    """midpoint and length of the exposure from p to q"""
    p, q = lin(p), lin(q)
    h = Fraction(1, 2)
    return add(p, q, h, h), add(q, p, 1, -1)


def at(sy, p):
    v = EL0
    for k, c in lin(p).items():
        v = v + sy[k] * fd.frac(c)
    return v


def pars(rng, over):
    w = float(np.exp(rng.uniform(np.log(.3), np.log(6))))
    if over:
        q = rng.choice([.1, .3, .45]) * rng.uniform(.9, 1.1)
    else:
        q = float(rng.choice([.55, .7, 1., 2., 8., 40.]) * rng.uniform(1, 1.2))
    return w, q, float(np.exp(rng.uniform(-1, 1)))


def scen(name, fn, call, post, e, f, over=False, key=None, **kw):
    """arguments: S, w, Q, rho, tau, sig (the same process twice), t1, d1, t2, d2"""
    def draw(rng):
        s = steps(rng, 1 + max(k for p in e + f for k in lin(p)))
        w, q, s2 = pars(rng, over)
        a = [Free(s2, "pos"), Free(w, "pos"), Free(q, "pos")]
        names = ["S", "w", "Q"]
        m1, d1 = affine(*e)
        m2, d2 = affine(*f)
        a += [Sym(np.array(x, dtype=object).reshape(())) for x in (m1, d1, m2, d2)]
        names += ["t1", "delta1", "t2", "delta2"]

        def rates(out):
            if over:
                return []
            S, w, q = (x[()] for x in out[:3])
            eta = fd.el_sqrt(EL1 - EL1 / (lift(4) * q * q))
            p = fd.CTX.p
            return [(-w / (lift(2) * q)).f, (eta * w).f * fd.CTX.i % p]
        return Point(a, s, [], names, meta={"rates": rates, "witness": True, "exprs": [lin(p) for p in e + f]}, key=key)
    kw.setdefault("draws", 4)
    kw.setdefault("jit", True)
    kw.setdefault("numscale", 1e-7)
    return Scenario(name, fn, call, draw, post, **kw)


FN = ";".join(f"{B}:IntegratedSHOKernel.{m}" for m in
              ("__init__", "evaluate", "integrated_separate", "integrated_overlap", "integrated_single",
               "full_single_integral", "latent_process", "I0", "I1", "I2"))


def c17(K, D, I):
    out = []

    def par2(S, w, q):
        return dict(rho=2 * jnp.pi / w, tau=2 * q / w, sig=jnp.sqrt(S * w * q))

    def call(S, w, q, t1, d1, t2, d2):
        k1 = D.IntegratedSHOKernel(S=S, w=w, Q=q)
        k2 = D.IntegratedSHOKernel(**par2(S, w, q))
        a, b = (t1, d1, 0), (t2, d2, 0)
        A = tuple(jnp.stack(x) for x in zip((t1, d1, 0), (t2, d2, 1)))
        return (k1.evaluate(a, b), k1.evaluate(b, a), k2.evaluate(a, b),
                k1(A, A), k1.evaluate(t1, t2), k1.evaluate((t1, 0), (t2, 1)))

    def call1(S, w, q, t1, d1, t2, d2):
        r = []
        for k in (D.SHOKernel(S=S, w=w, Q=q), D.SHOKernel(**par2(S, w, q))):
            r += [k.evaluate(t1, t2), k.evaluate(t2, t1), k.evaluate((t1, d1, 0), (t2, d2, 1)),
                  k.evaluate((t1, 0), (t2, 1)), k(jnp.stack([t1, t2]), jnp.stack([t2]))]
        s = K.SHO(omega=w, quality=q, sigma=jnp.sqrt(S * w * q))
        return r, s.evaluate(t1, t2)

    for nm, e, f in REL:
        def post(pt, a, o, e=e, f=f):
            S, w, q = (x[()] for x in a[:3])
            s = pt.symels
            E = (at(s, e[0]), at(s, e[1]), e[0] == e[1])
            F = (at(s, f[0]), at(s, f[1]), f[0] == f[1])
            h = Osc(S, w, q)
            v = sc(h.avg(E, F))
            ab = lambda x, y: y - x if fd.cmp_lt(x, y) else x - y
            lat = sc(h.k(ab(a[3][()], a[5][()])))
            M = np.array([[h.avg(E, E), v[()]], [v[()], h.avg(F, F)]], dtype=object)
            return [("evaluate = exact average", o[0], v), ("evaluate is symmetric", o[1], v),
                    ("the (rho, tau, sig) parameterization agrees", o[2], v),
                    ("kernel(X, X) is the covariance matrix", o[3], M),
                    ("coordinates without exposures: the latent covariance", o[4], lat),
                    ("coordinates with instruments only: the latent covariance", o[5], lat)]
        out.append(scen(f"dense integrated oscillator: {nm}", FN, call, post, e, f))

    for nm, e, f in [("two points", (0, 0), (1, 1)), ("same point", (0, 0), (0, 0)),
                     ("two exposures", (0, 1), (2, 3))]:
        def post1(pt, a, o):
            S, w, q = (x[()] for x in a[:3])
            x, y = a[3][()], a[5][()]
            d = y - x if fd.cmp_lt(x, y) else x - y
            v = sc(k_sho(dict(sigma=fd.el_sqrt(S * w * q), omega=w, quality=q), d))
            r = []
            for k, p in enumerate(("S, w, Q", "rho, tau, sig")):
                q5 = o[5 * k:5 * k + 5]
                r += [(f"SHOKernel({p}) = documented covariance", q5[0], v),
                      (f"SHOKernel({p}) is symmetric", q5[1], v),
                      (f"SHOKernel({p}) ignores exposures and instruments", q5[2], v),
                      (f"SHOKernel({p}) of (t, instrument)", q5[3], v),
                      (f"SHOKernel({p}) matrix", q5[4][:1, 0], np.array([v[()]], dtype=object))]
            return r + [("equals the state-space oscillator", o[0], o[10])]
        f1 = f"{B}:SHOKernel.__init__;{B}:SHOKernel.evaluate;{B}:unpack_coordinates"
        out.append(scen(f"dense oscillator: {nm}", f1, call1, post1, e, f))
    # quality factors up to 1/2
    def post2(pt, a, o):
        S, w, q = (x[()] for x in a[:3])
        x, y = a[3][()], a[5][()]
        d = y - x if fd.cmp_lt(x, y) else x - y
        return [("equals the state-space oscillator", o[0], o[10])]
    out.append(scen("dense oscillator, overdamped", f1, call1, post2, (0, 0), (1, 1), over=True,
                    key="dense-overdamped", draws=2))
    return out
