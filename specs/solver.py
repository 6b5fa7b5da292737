"""C01, C02, C03, C06, C12, C16: the solvers on an arbitrary kernel (specs/generic.py),
against the exact dense Gaussian process (specs/dense_gp.py)."""
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction
from vc import field as fd, linalg as la
from vc.field import El, EL0, EL1, lift
from vc.contract import SpecFail
from vc.scenario import Scenario, Point, Free, Int, Sym, free
from .generic import Gen
from . import dense_gp as dg


# ---------------------------------------------------------------- drawing
def gen_free(rng, d, r, hvar):
    """well-conditioned float values; the field values are uniform"""
    V = np.eye(d) + .3 * np.array([[rng.uniform(-1, 1) for _ in range(d)] for _ in range(d)])
    lam = -np.exp(np.array([-1.2 + 1.1 * k + rng.uniform(-.3, .3) for k in range(d)]))
    L = np.eye(d, r) + .3 * np.array([[rng.uniform(-1, 1) for _ in range(r)] for _ in range(d)])
    a = np.eye(r) + .3 * np.array([[rng.uniform(-1, 1) for _ in range(r)] for _ in range(r)])
    C = a @ a.T / 2
    H0 = np.array([[rng.choice([-1, 1]) * rng.uniform(.4, 1.5) for _ in range(d)]])
    H1 = np.array([[rng.uniform(-.5, .5) if hvar else 0. for _ in range(d)]])
    out = [Free(V), Free(lam, "neg"), Free(L), Free(C), Free(H0), Free(H1, "real" if hvar else "const")]
    return out


NP = 6


def times(rng, order):
    """order: list of ranks (equal ranks are ties) -> (symbol values, combos)"""
    n = max(order) + 1
    t = rng.uniform(-3, 3)
    s = []
    for _ in range(n):
        s.append(t)
        t += rng.choice([.05, .3, 1., 2.]) * rng.uniform(.7, 1.3)
    return s


def symarr(ranks):
    a = np.empty(len(ranks), dtype=object)
    for k, r in enumerate(ranks):
        a[k] = {r: Fraction(1)}
    return Sym(a)


# ---------------------------------------------------------------- the model of the spec
class Model:
    """exact posterior of every quantity, components indexed"""

    def __init__(self, comps, t, y, noise):
        self.comps, self.t, self.y = comps, list(t), y
        n = len(self.t)
        self.Kc = [self._gram(c) for c in comps]
        K = self.Kc[0]
        for k in self.Kc[1:]:
            K = K + k
        self.Cinv, self.alpha, self.Cov = dg.posterior(K, noise, y)

    def _gram(self, c):
        n = len(self.t)
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                r[i, j] = r[j, i] = c.k(self.t[i], self.t[j])
        return r

    def cross(self, x, which):
        """Cov(f_which(x), y)"""
        return np.array([sum((self.comps[c].k(x, s) for c in which), EL0) for s in self.t],
                        dtype=object)

    def point(self, x, which=None):
        which = range(len(self.comps)) if which is None else which
        k = self.cross(x, which)
        v = sum((self.comps[c].k(x, x) for c in which), EL0)
        return k @ self.alpha, v - k @ self.Cinv @ k

    def points(self, xs, which=None):
        r = [self.point(x, which) for x in xs]
        return (np.array([a for a, _ in r], dtype=object), np.array([b for _, b in r], dtype=object))

    def state(self, x, upto=None):
        """posterior mean and covariance of the full state at x, given the first `upto` data"""
        n = len(self.t) if upto is None else upto
        d = sum(c.d for c in self.comps)
        P = la.zeros(d, d)
        o = 0
        X = la.zeros(d, n)
        for c in self.comps:
            P[o:o + c.d, o:o + c.d] = c.var_state()
            for j in range(n):
                X[o:o + c.d, j] = c.x_y(x, self.t[j])
            o += c.d
        if n == 0:
            return la.zeros(d), P
        Ci = self.Cinv if n == len(self.t) else la.inv(self.Cov[:n, :n])
        return X @ (Ci @ self.y[:n]), P - X @ Ci @ X.T


# composite models: the real expression, and the components of the specification
MX = dg.Mix
C1 = Fraction(7, 4)
EX = {
    "a * b": ((1, 2), lambda a, b: a * b, lambda a, b: [MX("*", a, b)]),
    "c * a": ((2,), lambda a: 1.75 * a, lambda a: [MX("*", a, fd.frac(C1))]),
    "a * c + b * e": ((1, 1, 2), lambda a, b, e: a * 1.75 + b * e,
                      lambda a, b, e: [MX("*", a, fd.frac(C1)), MX("*", b, e)]),
    "(a + b) * e + c * e": ((1, 1, 1), lambda a, b, e: (a + b) * e + 1.75 * e,
                            lambda a, b, e: [MX("*", MX("+", a, b), e), MX("*", e, fd.frac(C1))]),
    "c * (a + b)": ((1, 2), lambda a, b: 1.75 * (a + b), lambda a, b: [MX("*", MX("+", a, b), fd.frac(C1))]),
    "a + (c * (b * e))": ((2, 1, 1), lambda a, b, e: a + 1.75 * (b * e),
                          lambda a, b, e: [a, MX("*", b, e, fd.frac(C1))]),
}


def leaves(k):
    """the components of the model, in order"""
    from smolgp.kernels.base import Sum
    return leaves(k.kernel1) + leaves(k.kernel2) if isinstance(k, Sum) else [k]


def build(args, dims, names=None, ex=None):
    """the real kernel for the traced parameters"""
    ks = []
    for i, d in enumerate(dims):
        V, lam, L, C, H0, H1 = args[NP * i:NP * i + NP]
        ks.append(Gen(names[i] if names else f"g{i}", V, lam, L, C, H0, H1))
    if ex:
        k = EX[ex][1](*ks)
        return k, leaves(k)
    k = ks[0]
    for q in ks[1:]:
        k = k + q
    return k, ks


def comps_of(args, dims, ex=None):
    cs = [dg.Comp(*args[NP * i:NP * i + 6]) for i in range(len(dims))]
    return EX[ex][2](*cs) if ex else cs


def scen(name, fn, call, post, dims, ranks, tests=(), hvar=True, r=None, key=None, **kw):
    """one scenario: data at the ranked times, tests at ranked times"""
    allr = list(ranks) + list(tests)

    def draw(rng):
        s = times(rng, allr)
        a, names = [], []
        for i, d in enumerate(dims):
            a += gen_free(rng, d, r or d, hvar)
            names += [f"{q}{i}" for q in ("V", "lam", "L", "C", "H0", "H1")]
        n = len(ranks)
        a += [symarr(ranks), Free(np.array([rng.gauss(0, 1) for _ in range(n)])),
              Free(np.exp(np.array([rng.uniform(-3, 0) for _ in range(n)])), "pos")]
        names += ["t", "y", "noise"]
        if tests:
            a.append(symarr(tests))
            names.append("t_test")
        return Point(a, s, [NP * i + 1 for i in range(len(dims))], names, key=key)

    kw.setdefault("jit", True)
    kw.setdefault("draws", 4)
    kw.setdefault("need", 1)
    kw.setdefault("wide", True)
    kw.setdefault("numscale", 1e-7)
    return Scenario(name, fn, call, draw, post, **kw)


def GPof(args, dims, solver=None, names=None, ex=None, **kw):
    from smolgp.gp import GaussianProcess
    k, ks = build(args, dims, names, ex)
    o = NP * len(dims)
    t, y, noise = args[o:o + 3]
    return GaussianProcess(k, t, diag=noise, solver=solver, **kw), y


def model(args, dims, ex=None):
    o = NP * len(dims)
    return Model(comps_of(args, dims, ex), args[o], args[o + 1], args[o + 2])


FN_LIK = ("smolgp.gp.GaussianProcess.log_probability; smolgp.gp.GaussianProcess._compute_log_prob; "
          "smolgp.solvers.kalman.kalman_filter; smolgp.solvers.kalman.KalmanFilter; "
          "smolgp.solvers.solver.StateSpaceSolver.Kalman; smolgp.gp.GaussianProcess.condition")
FN_COND = ("smolgp.gp.GaussianProcess.condition; smolgp.solvers.solver.StateSpaceSolver.condition; "
           "smolgp.solvers.kalman.kalman_filter; smolgp.solvers.rts.rts_smoother; "
           "smolgp.gp.ConditionedStates.project_at_data")
FN_PRED = ("smolgp.gp.GaussianProcess.predict; smolgp.solvers.solver.StateSpaceSolver.predict; "
           "smolgp.gp.PredictedStates")

# (dims, data ranks)
LAYOUTS = [((1,), (0,)), ((2,), (0, 1)), ((2,), (0, 0)), ((1,), (0, 1, 1, 2)), ((2,), (0, 1, 2)),
           ((3,), (0, 1, 1)), ((1, 2), (0, 1, 2)), ((2, 1), (0, 0, 1))]
BIG = [((2,), (0, 1, 1, 2, 3)), ((1, 2), (0, 1, 2, 2, 2)), ((1,), (0, 1, 2, 3, 4, 4, 5))]


LONG = [((1,), tuple(range(9)) + (8, 8, 9, 10, 10) + tuple(range(11, 16)))]


def composites():
    R = [(0, 1), (0, 0, 1), (0, 1, 2)]
    return [(d, R[i % 3], n) for i, (n, (d, _, _)) in enumerate(EX.items())]


def tag(dims, ranks, tests=None, ex=None):
    run = lambda r: "".join(map(str, r)) if max(r) < 10 else f"{len(r)} of {max(r) + 1}"
    s = f"d={'+'.join(map(str, dims))} times={run(ranks)}"
    s += f" tests={run(tests)}" if tests else ""
    return s + (f" {ex}" if ex else "")


def c01():
    out = []
    for dims, ranks, ex in [(*l, None) for l in LAYOUTS + BIG[:2] + LONG] + composites():
        def call(*a, dims=dims, ex=ex):
            gp, y = GPof(a, dims, ex=ex)
            return gp.log_probability(y), gp.condition(y).log_probability

        def post(pt, a, o, dims=dims, ex=ex):
            m = model(a, dims, ex)
            y = a[NP * len(dims) + 1]
            return [dg.loglik_obl("log_probability is the exact marginal likelihood", o[0],
                                  m.Cov, m.alpha, y),
                    dg.loglik_obl("condition().log_probability is the exact marginal likelihood",
                                  o[1], m.Cov, m.alpha, y)]
        out.append(scen(f"loglik {tag(dims, ranks, ex=ex)}", FN_LIK, call, post, dims, ranks,
                        anyroot=True, retries=600))
    return out


def c02():
    out = []
    for dims, ranks, ex in composites():
        def call(*a, dims=dims, ex=ex):
            gp, y = GPof(a, dims, ex=ex)
            g = gp.condition(y).gp
            return g.loc, g.variance

        def post(pt, a, o, dims=dims, ex=ex):
            m = model(a, dims, ex)
            mu, var = m.points(m.t)
            return [("conditioned mean at the data", o[0], mu),
                    ("conditioned variance at the data", o[1], var)]
        out.append(scen(f"condition {tag(dims, ranks, ex=ex)}", FN_COND, call, post, dims, ranks))
    for dims, ranks in LAYOUTS + BIG + LONG:
        def call(*a, dims=dims):
            gp, y = GPof(a, dims)
            g = gp.condition(y).gp
            s = g.states
            return (g.loc, g.variance, s.predicted_mean, s.predicted_cov, s.filtered_mean,
                    s.filtered_cov, s.smoothed_mean, s.smoothed_cov)

        def post(pt, a, o, dims=dims):
            m = model(a, dims)
            mu, var = m.points(m.t)
            n = len(m.t)
            pr = [m.state(m.t[k], k) for k in range(n)]
            fi = [m.state(m.t[k], k + 1) for k in range(n)]
            sm = [m.state(m.t[k]) for k in range(n)]
            st = lambda l, j: np.stack([x[j] for x in l])
            return [("conditioned mean at the data", o[0], mu),
                    ("conditioned variance at the data", o[1], var),
                    ("predicted means", o[2], st(pr, 0)), ("predicted covariances", o[3], st(pr, 1)),
                    ("filtered means", o[4], st(fi, 0)), ("filtered covariances", o[5], st(fi, 1)),
                    ("smoothed means", o[6], st(sm, 0)), ("smoothed covariances", o[7], st(sm, 1))]
        out.append(scen(f"condition {tag(dims, ranks)}", FN_COND, call, post, dims, ranks))
    return out


TESTS = [((1,), (1,), (0, 1, 2)), ((2,), (1, 3), (4, 2, 0, 2)), ((2,), (1, 1, 3), (1, 0, 3, 4, 2)),
         ((1,), (1, 3, 3, 5), (6, 0, 2, 4, 5, 1)), ((3,), (1, 3), (2, 0, 4)),
         ((1, 2), (1, 2, 4), (3, 0, 2, 5)), ((2,), (0, 1), (1,)), ((2,), (0, 2), (1,))]


LONGT = [((1,), tuple(2 * r + 1 for r in LONG[0][1]), tuple(range(30, -1, -2)) + (7, 21, 33, 17, 19, 0)),
         ((1,), (1, 3), tuple(k * 5 % 6 for k in range(12)) + (0, 5, 2))]


def c03():
    out = []
    for dims, ranks, ex in composites():
        n = max(ranks) + 1
        tests = (n + 1, 0, 1, n)
        ranks = tuple(r + 1 for r in ranks)

        def call(*a, dims=dims, ex=ex):
            gp, y = GPof(a, dims, ex=ex)
            return gp.condition(y).gp.predict(a[-1], return_var=True)

        def post(pt, a, o, dims=dims, ex=ex):
            mu, var = model(a, dims, ex).points(list(a[-1]))
            return [("predict mean", o[0], mu), ("predict variance", o[1], var)]
        out.append(scen(f"predict {tag(dims, ranks, tests, ex)}", FN_PRED, call, post, dims, ranks, tests))
    for dims, ranks, tests in TESTS + LONGT:
        def call(*a, dims=dims):
            gp, y = GPof(a, dims)
            xt = a[-1]
            g = gp.condition(y).gp
            mu, var = g.predict(xt, return_var=True)
            full = g.predict(xt, return_full_state=True)
            mu2, var2 = gp.predict(xt, y, return_var=True)
            c = gp.condition(y, xt).gp
            at, atv = g.predict(return_var=True)
            at2, atv2 = g.predict(gp.X, return_var=True)
            k = g.kernel
            h = jax.vmap(lambda x: 2. * k.observation_matrix(x))(xt)
            ob = g.predict(xt, observation_model=lambda x: 2. * k.observation_matrix(x))
            return (mu, var, full.mean, full.cov, full.loc, full.variance, mu2, var2, c.loc,
                    c.variance, at, atv, at2, atv2, g.predict(xt), gp.predict(xt, y), ob)

        def post(pt, a, o, dims=dims):
            m = model(a, dims)
            xt = list(a[-1])
            mu, var = m.points(xt)
            am, av = m.points(m.t)
            st = [m.state(x) for x in xt]
            sm, sv = np.stack([x[0] for x in st]), np.stack([x[1] for x in st])
            return [("predict mean", o[0], mu), ("predict variance", o[1], var),
                    ("full-state mean", o[2], sm), ("full-state covariance", o[3], sv),
                    ("full-state loc", o[4], mu), ("full-state variance", o[5], var),
                    ("predict(X_test, y) mean", o[6], mu), ("predict(X_test, y) variance", o[7], var),
                    ("condition(y, X_test) mean", o[8], mu),
                    ("condition(y, X_test) variance", o[9], var),
                    ("predict() at the data: mean", o[10], am),
                    ("predict() at the data: variance", o[11], av),
                    ("predict(X) at the data equals the conditioned mean", o[12], am),
                    ("predict(X) at the data equals the conditioned variance", o[13], av),
                    ("predict mean only", o[14], mu), ("predict(X_test, y) mean only", o[15], mu),
                    ("predict with an observation model", o[16], mu * lift(2))]
        out.append(scen(f"predict {tag(dims, ranks, tests)}", FN_PRED, call, post, dims, ranks, tests))
    return out


FN_COMP = ("smolgp.gp.GaussianProcess.predict; smolgp.gp.PredictedStates.get_component; "
           "smolgp.gp.PredictedStates.get_all_components; smolgp.gp.GaussianProcess.get_component_mean; "
           "smolgp.gp.GaussianProcess.get_all_component_means; smolgp.gp.GaussianProcess.condition; "
           "smolgp.kernels.base.Sum.observation_model; smolgp.kernels.base.extract_leaf_kernels")

# names that contain each other, differ by case or by blanks, or look like something else
COMPS = [((1, 2), (1, 2), (0, 3), ("a", "ab")), ((2, 1), (1, 1, 3), (2, 0), ("GP_1", "GP")),
         ((1, 1, 1), (1, 3), (2, 4, 0), ("b", "ab", "B")), ((2, 2), (1, 2, 3), (2,), ("g0", "g1")),
         ((1, 2, 1, 1), (0, 1), (1,), ("Sum", "", "0", " a")),
         ((1, 1, 1, 1), (0, 1), (1,), ("gp", "gp_1", "gp_10", "1_gp"))]


def c12():
    out = []
    for ex in ("a * c + b * e", "(a + b) * e + c * e", "a + (c * (b * e))"):
        dims, ranks, tests = EX[ex][0], (1, 2), (0, 3, 2)

        def call(*a, dims=dims, ex=ex):
            gp, y = GPof(a, dims, ex=ex)
            xt = a[-1]
            g = gp.condition(y).gp
            full = g.predict(xt, return_full_state=True)
            ks = leaves(g.kernel)
            names = [k.name for k in ks]
            if len(set(names)) != 2:
                raise SpecFail(f"components {names}")
            r = [[*full.get_component(n, return_var=True), *g.predict(xt, kernel=n, return_var=True),
                  *g.predict(xt, kernel=k, return_var=True), *g.get_component_mean(n, return_var=True),
                  *g.predict(kernel=n, return_var=True)] for n, k in zip(names, ks)]
            return r, full.get_component(names, return_var=True), g.get_component_mean(names, return_var=True)

        def post(pt, a, o, dims=dims, ex=ex):
            m = model(a, dims, ex)
            xt, o, r = list(a[-1]), list(o), []
            for i in range(2):
                for l, at in (("get_component", 0), ("predict(kernel=name)", 0), ("predict(kernel=object)", 0),
                              ("get_component_mean", 1), ("predict(kernel=name) at the data", 1)):
                    mu, var = m.points(m.t if at else xt, [i])
                    r += [(f"{l}: mean of component {i}", o.pop(0), mu),
                          (f"{l}: variance of component {i}", o.pop(0), var)]
            for l, x in (("all components together", xt), ("all components together at the data", m.t)):
                mu, var = m.points(x)
                r += [(f"{l}: mean", o.pop(0), mu), (f"{l}: variance", o.pop(0), var)]
            return r
        out.append(scen(f"components {tag(dims, ranks, tests, ex)}", FN_COMP, call, post, dims, ranks, tests))
    for shape in (0, 1):
        for dims, ranks, tests, names in COMPS:
            nc = len(dims)
            if shape and nc < 3:
                continue

            def call(*a, dims=dims, shape=shape, names=list(names)):
                from smolgp.gp import GaussianProcess
                k, ks = build(a, dims, names)
                if shape:     # right-nested sum
                    k = ks[-1]
                    for q in ks[-2::-1]:
                        k = q + k
                o = NP * len(dims)
                t, y, noise, xt = a[o:o + 4]
                gp = GaussianProcess(k, t, diag=noise)
                g = gp.condition(y).gp
                full = g.predict(xt, return_full_state=True)
                res = [list(g.predict(xt, return_var=True)), list(g.predict(return_var=True))]
                per = []
                allm, allmv = g.get_all_component_means(), g.get_all_component_means(return_var=True)
                allc, allcv = full.get_all_components(), full.get_all_components(return_var=True)
                for got in (allm, allmv, allc, allcv):
                    if sorted(got) != sorted(names):
                        raise SpecFail(f"components {sorted(got)} instead of {sorted(names)}")
                for i, n in enumerate(names):
                    cx = gp.condition(y, xt, kernel=ks[i]).gp
                    cd = gp.condition(y, kernel=ks[i]).gp
                    per.append([
                        [*g.predict(xt, kernel=n, return_var=True)],
                        [*g.predict(xt, kernel=ks[i], return_var=True)],
                        [*full.get_component(n, return_var=True)],
                        [cx.loc, cx.variance], [*allcv[n]], [allc[n], allcv[n][1]],
                        [full.get_component(n), allcv[n][1]],
                        [*g.predict(kernel=n, return_var=True)],
                        [*g.get_component_mean(n, return_var=True)],
                        [cd.loc, cd.variance], [*allmv[n]], [allm[n], allmv[n][1]],
                        [g.get_component_mean(n), allmv[n][1]]])
                pair = [[*full.get_component([names[0], names[-1]], return_var=True)],
                        [*g.get_component_mean([names[-1], names[0]], return_var=True)],
                        [full.get_component([names[-1], names[0]]),
                         g.get_component_mean([names[0], names[-1]])]]
                return res, per, pair

            LAB = ["predict(kernel=name)", "predict(kernel=object)", "full state get_component",
                   "condition(X_test, kernel)", "get_all_components", "get_all_components mean",
                   "get_component mean only"]
            LAD = ["predict(kernel=name) at the data", "get_component_mean",
                   "condition(kernel)", "get_all_component_means",
                   "get_all_component_means mean", "get_component_mean mean only"]

            def post(pt, a, o, dims=dims, LAB=LAB, LAD=LAD):
                o = list(o)
                m = model(a, dims)
                xt = list(a[-1])
                nc = len(dims)
                r = []
                tot = o[:4]
                o = o[4:]
                sx = sd = None
                for i in range(nc):
                    mu, var = m.points(xt, [i])
                    md, vd = m.points(m.t, [i])
                    for l in LAB:
                        r.append((f"{l}: mean of component {i}", o.pop(0), mu))
                        r.append((f"{l}: variance of component {i}", o.pop(0), var))
                    for l in LAD:
                        g0, g1 = o.pop(0), o.pop(0)
                        r.append((f"{l}: mean of component {i}", g0, md))
                        r.append((f"{l}: variance of component {i}", g1, vd))
                        last = g0
                    sd = last if sd is None else sd + last
                    sx = mu if sx is None else sx + mu
                r.append(("component means add up to the total at the data", sd, tot[2]))
                r.append(("component means add up to the total prediction", sx, tot[0]))
                two = [0, nc - 1]
                mu, var = m.points(xt, two)
                md, vd = m.points(m.t, two)
                for l, w in (("a set of components: mean", mu), ("a set of components: variance", var),
                             ("a set of components at the data: mean", md),
                             ("a set of components at the data: variance", vd),
                             ("a set of components: mean only", mu),
                             ("a set of components at the data: mean only", md)):
                    r.append((l, o.pop(0), w))
                assert not o
                return r
            out.append(scen(f"components {'right-nested ' if shape else ''}{tag(dims, ranks, tests)} {'/'.join(names)}",
                            FN_COMP, call, post, dims, ranks, tests))
    return out


FN_PAR = ("smolgp.solvers.parallel.solver.ParallelStateSpaceSolver.condition; "
          "smolgp.solvers.parallel.solver.ParallelStateSpaceSolver.predict; "
          "smolgp.solvers.parallel.kalman; smolgp.solvers.parallel.rts")

PARS = [((1,), (0,), (0,)), ((2,), (1, 2), (0, 1, 3)), ((2,), (1, 1), (1, 0)), ((1,), (1, 3, 3, 5), (6, 0, 2, 4)),
        ((2,), (1, 2, 4), (3, 0, 2, 5)), ((3,), (1, 2), (0, 3)), ((1, 2), (1, 2, 4), (3, 0, 2, 5)),
        ((2,), (0, 1, 1, 2, 3), (2, 4)), ((1,), (0, 1, 2, 3, 4, 5, 6), (3,)),
        ((1,), (0, 0, 1, 2, 2, 3, 4, 5), (2, 6)),
        ((1,), tuple(2 * r + 1 for r in LONG[0][1]), (34, 7, 0, 33, 2, 31, 12))]


def c06():
    out = []
    for dims, ranks, tests, ex in [(*p, None) for p in PARS] + [
            (EX[e][0], (1, 2), (0, 3, 2), e) for e in ("a * b", "a * c + b * e", "c * (a + b)")]:
        def call(*a, dims=dims, ex=ex):
            from smolgp.solvers import StateSpaceSolver, ParallelStateSpaceSolver
            xt = a[-1]
            res = []
            for S in (ParallelStateSpaceSolver, StateSpaceSolver):
                gp, y = GPof(a, dims, solver=S, ex=ex)
                lp, g = gp.condition(y)
                s = g.states
                full = g.predict(xt, return_full_state=True)
                res.append([s.predicted_mean, s.predicted_cov, s.filtered_mean, s.filtered_cov,
                            s.smoothed_mean, s.smoothed_cov, g.loc, g.variance, full.mean, full.cov,
                            *g.predict(xt, return_var=True)])
            return res

        LAB = ["predicted means", "predicted covariances", "filtered means", "filtered covariances",
               "smoothed means", "smoothed covariances", "conditioned mean", "conditioned variance",
               "full-state prediction mean", "full-state prediction covariance", "prediction mean",
               "prediction variance"]

        def post(pt, a, o, dims=dims, LAB=LAB):
            n = len(LAB)
            return [(f"parallel = sequential: {l}", p, q) for l, p, q in zip(LAB, o[:n], o[n:])]
        out.append(scen(f"parallel {tag(dims, ranks, tests, ex)}", FN_PAR, call, post, dims, ranks, tests,
                        hvar=False))
    for dims, ranks in [((2,), (0,)), ((2,), (0, 1)), ((1,), (0, 1, 1, 2)), ((1, 2), (0, 1, 2))]:
        def call(*a, dims=dims):
            from smolgp.solvers import ParallelStateSpaceSolver
            gp, y = GPof(a, dims, solver=ParallelStateSpaceSolver)
            return gp.log_probability(y), gp.condition(y).log_probability

        def post(pt, a, o, dims=dims):
            m = model(a, dims)
            y = a[NP * len(dims) + 1]
            return [dg.loglik_obl(f"parallel {l} is the exact marginal likelihood", q, m.Cov,
                                  m.alpha, y)
                    for l, q in zip(("log_probability", "condition().log_probability"), o)]
        out.append(scen(f"parallel loglik {tag(dims, ranks)}", FN_PAR, call, post, dims, ranks,
                        hvar=False, anyroot=True, retries=600))
    return out
