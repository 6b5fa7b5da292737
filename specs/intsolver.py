"""C04, C05, C07: exposure-averaged data on an arbitrary integrated kernel."""
import numpy as np
import jax.numpy as jnp
from fractions import Fraction
from vc import field as fd, linalg as la
from vc.field import El, EL0, EL1, lift
from vc.scenario import Scenario, Point, Free, Int, Sym
from .generic import Gen
from . import dense_gp as dg
from .solver import gen_free, leaves
from .dense import lin, affine, at

H_ = Fraction(1, 2)
MX = dg.Mix
C1 = Fraction(7, 4)
# name -> (real expression, components of the specification)
EX = {"c * a": (lambda a: 1.75 * a, lambda a: [MX("*", a, fd.frac(C1))]),
      "a + c * b": (lambda a, b: a + b * 1.75, lambda a, b: [a, MX("*", b, fd.frac(C1))])}


def genint():
    from smolgp.kernels.integrated import IntegratedStateSpaceModel

    class GenI(IntegratedStateSpaceModel):
        """an arbitrary base kernel observed through its first state; the two integrals a
        subclass provides are given in closed form (what C11 proves of every real one)"""

        def __init__(self, name, base, ni):
            self.base_model, self.num_insts, self.name = base, ni, name

        def _mats(self, dt):
            b = self.base_model
            lam, Vi = b.lam, jnp.linalg.inv(b.V)
            e = jnp.exp(lam * dt)
            A = b.V @ jnp.diag(e) @ Vi
            Ph = b.V @ jnp.diag((e - 1.0) / lam) @ Vi
            Phh = b.V @ jnp.diag((e - 1.0 - lam * dt) / lam / lam) @ Vi
            return A, Ph, Phh

        def integrated_transition_matrix(self, X1, X2):
            return self._mats(self.coord_to_sortable(X2) - self.coord_to_sortable(X1))[1]

        def integrated_process_noise(self, X1, X2):
            A, Ph, Phh = self._mats(self.coord_to_sortable(X2) - self.coord_to_sortable(X1))
            P = self.base_model.stationary_covariance()
            q12 = Ph @ P[:, :1] - A @ P @ Ph[:1, :].T
            q22 = 2 * Phh[:1, :] @ P[:, :1] - Ph[:1] @ P @ Ph[:1].T
            return q12, q12.T, q22
    return GenI


NP = 4


def dyadic(rng, n):
    t = rng.randrange(-40, 40) / 16
    s = []
    for _ in range(n):
        s.append(t)
        t += rng.randrange(1, 24) / 16 + rng.randrange(1, 256) / 8192
    return s


class IModel:
    def __init__(self, comps, exps, y, noise):
        self.comps, self.exps, self.y = comps, exps, y
        n = len(exps)
        self.Kc = []
        for c in comps:
            r = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(i, n):
                    r[i, j] = r[j, i] = c.avg_avg(exps[i], exps[j])
            self.Kc.append(r)
        self.Cinv, self.alpha, self.Cov = dg.posterior(sum(self.Kc[1:], self.Kc[0]), noise, y)

    def data(self, which=None):
        which = range(len(self.comps)) if which is None else which
        K = sum((self.Kc[c] for c in list(which)[1:]), self.Kc[list(which)[0]])
        C = K @ self.Cinv @ K
        n = len(self.exps)
        return K @ self.alpha, np.array([K[i, i] - C[i, i] for i in range(n)], dtype=object)

    def points(self, xs, which=None):
        which = range(len(self.comps)) if which is None else which
        mu, var = [], []
        for x in xs:
            k = np.array([sum((self.comps[c].pt_avg(x, e) for c in which), EL0) for e in self.exps],
                         dtype=object)
            v = sum((self.comps[c].k(x, x) for c in which), EL0)
            mu.append(k @ self.alpha)
            var.append(v - k @ self.Cinv @ k)
        return np.array(mu, dtype=object), np.array(var, dtype=object)


# name, dims, exposures (start rank, end rank, instrument) in input order, test ranks
E1 = [("one", (2,), [(1, 2, 0)], (0, 1, 2, 3)),
      ("one zero-length", (1,), [(1, 1, 0)], (0, 1, 2)),
      ("sequence", (2,), [(1, 3, 0), (4, 5, 0)], (0, 2, 6, 4)),
      ("touching, unsorted", (2,), [(2, 4, 0), (1, 2, 0)], (3, 2, 0)),
      ("overlap", (2,), [(1, 3, 0), (2, 5, 1)], (4, 0, 2, 6)),
      ("nested", (1,), [(1, 4, 0), (2, 3, 1), (5, 6, 0)], (0, 3, 7, 5)),
      ("equal ends", (1,), [(1, 3, 0), (2, 3, 1)], (3, 2)),
      ("touching two instruments", (1,), [(1, 3, 1), (3, 4, 0), (4, 6, 1)], (2, 3, 5)),
      ("zero-length inside", (1,), [(1, 4, 0), (2, 2, 1)], (3, 2, 0, 1)),
      ("zero-length at end", (1,), [(1, 2, 0), (2, 2, 1)], (3, 2, 1)),
      ("zero-length and exposures, unsorted", (1,), [(4, 5, 0), (3, 3, 1), (1, 2, 0)], (0, 3, 6)),
      ("two zero-length", (2,), [(1, 1, 0), (2, 2, 0)], (0, 1, 3)),
      ("sum", (1, 2), [(1, 3, 0), (2, 4, 1)], (0, 3, 5)),
      ("sum, unsorted", (2, 1), [(3, 4, 0), (1, 2, 0)], (1, 5)),
      ("three instruments", (1,), [(1, 4, 2), (2, 5, 0), (3, 6, 1)], (0, 4, 7)),
      # coincidences of lengths, midpoints and test points
      ("equal lengths", (1,), [(1, 2, 0), (3, {3: 1, 2: 1, 1: -1}, 0)], ({1: H_, 2: H_}, 3)),
      ("equal lengths, touching, unsorted", (1,), [(2, {2: 2, 1: -1}, 0), (1, 2, 0)], (2, {1: H_, 2: H_})),
      ("equal lengths, overlap", (1,), [(1, 3, 1), (2, {3: 1, 2: 1, 1: -1}, 0)], (2, 4)),
      ("equal midpoints", (1,), [(2, 3, 0), (1, {2: 1, 3: 1, 1: -1}, 1)], ({2: H_, 3: H_}, 4)),
      ("zero-length at the midpoint", (1,), [(1, {2: 2, 1: -1}, 0), (2, 2, 1)], (2, 0)),
      ("unused instrument", (1,), [(1, 3, 2), (2, 4, 0)], (3, 0)),
      ("zero-length of one instrument, unsorted", (1,), [(3, 3, 1), (1, 1, 1), (2, 2, 1)], (0, 2, 4)),
      ("c * a", (2,), [(2, 4, 0), (1, 3, 1)], (0, 3)),
      ("a + c * b", (1, 1), [(1, 3, 0), (2, 4, 1)], (0, 3))]
LONG = [("long", (1,), [(2 * k + 1, 2 * k + 3 if k % 3 else 2 * k + 2, k % 2) for k in (4, 0, 1, 7, 2, 5, 6, 3, 8)],
         (0, 5, 19, 12, 8))]
TIED = [("same start", (1,), [(1, 2, 0), (1, 3, 1)], (0, 4)),
        ("zero-length at a start", (1,), [(1, 2, 0), (1, 1, 1)], (0, 3))]


def layouts(tied=True, long=True):
    for l in E1 + (LONG if long else []):
        yield l + (None,)
    if tied:
        for l in TIED:
            yield l + ("simultaneous-resets",)


def scen(name, fn, call, post, dims, exps, tests, key=None, scale=False, **kw):
    ni = max(e[2] for e in exps) + 1

    def draw(rng):
        s = dyadic(rng, max(k for e in exps for p in (*e[:2], *tests) for k in lin(p)) + 1)
        a, names, n = [], [], len(exps)
        for i, d in enumerate(dims):
            g = gen_free(rng, d, 1, False)[:4]
            g[1].values[:] = np.exp(np.linspace(-.7, .9, d)) * -1 * rng.uniform(.8, 1.2)
            # the single driving noise must reach every mode (Pinf invertible)
            g[2].values[:] = np.array([[rng.choice([-1, 1]) * rng.uniform(.6, 1.2)] for _ in range(d)])
            a += g
            names += [f"{q}{i}" for q in ("V", "lam", "L", "C")]
        mid, dl = np.empty(n, dtype=object), np.empty(n, dtype=object)
        for k, (p, q, _) in enumerate(exps):
            mid[k], dl[k] = affine(p, q)
        a += [Sym(mid), Sym(dl), Int([e[2] for e in exps]),
              Free(np.array([rng.gauss(0, 1) for _ in range(n)])),
              Free(np.exp(np.array([rng.uniform(-3, 0) for _ in range(n)])), "pos")]
        names += ["t", "texp", "instid", "y", "noise"]
        tt = np.empty(len(tests), dtype=object)
        for k, r in enumerate(tests):
            tt[k] = lin(r)
        a.append(Sym(tt))
        names.append("t_test")
        val = lambda p: sum(s[i] * float(c) for i, c in lin(p).items())
        order = sorted(range(n), key=lambda i: (val(exps[i][1]), i))
        return Point(a, s, [NP * i + 1 for i in range(len(dims))], names, key=key,
                     meta={"order": order, "exprs": [lin(p) for e in exps for p in e[:2]] + [lin(p) for p in tests]})
    kw.setdefault("jit", True)
    kw.setdefault("draws", 4)
    kw.setdefault("need", 1)
    kw.setdefault("wide", True)
    kw.setdefault("numscale", 1e-6)
    return Scenario(name, fn, call, draw, post, **kw)


def build(a, dims, ni, GenI, nm=None):
    ks = []
    for i, d in enumerate(dims):
        H0 = jnp.zeros((1, d)).at[0, 0].set(1.0)
        V, lam, L, C = a[NP * i:NP * i + NP]
        ks.append(GenI(f"g{i}", Gen(f"b{i}", V, lam, L, C, H0), ni))
    if nm in EX:
        k = EX[nm][0](*ks)
        return k, leaves(k)
    k = ks[0]
    for q in ks[1:]:
        k = k + q
    return k, ks


def gp_of(a, dims, exps, GenI, solver=None, nm=None):
    from smolgp.gp import GaussianProcess
    ni = max(e[2] for e in exps) + 1
    k, ks = build(a, dims, ni, GenI, nm)
    o = NP * len(dims)
    t, de, ii, y, noise, xt = a[o:o + 6]
    return GaussianProcess(k, (t, de, ii), diag=noise, solver=solver), y, xt, ks


def imodel(self_syms, a, dims, exps, nm=None):
    o = NP * len(dims)
    comps = []
    for i, d in enumerate(dims):
        H0 = la.zeros(1, d)
        H0[0, 0] = EL1
        comps.append(dg.Comp(*a[NP * i:NP * i + 4], H0))
    if nm in EX:
        comps = EX[nm][1](*comps)
    ex = [(at(self_syms, p), at(self_syms, q), p == q) for p, q, _ in exps]
    return IModel(comps, ex, a[o + 3], a[o + 4]), a[o + 5]


S = "src/smolgp/"
FN4 = ("smolgp.solvers.integrated.kalman.integrated_kalman_filter; "
       "smolgp.solvers.integrated.kalman.IntegratedKalmanFilter; "
       "smolgp.solvers.integrated.rts.integrated_rts_smoother; "
       "smolgp.solvers.integrated.solver.IntegratedStateSpaceSolver.__init__; "
       "smolgp.solvers.integrated.solver.IntegratedStateSpaceSolver.condition; "
       "smolgp.gp.GaussianProcess.condition; smolgp.gp.ConditionedStates.project_at_data; "
       "smolgp.kernels.integrated.IntegratedStateSpaceModel")
FN5 = ("smolgp.solvers.integrated.solver.IntegratedStateSpaceSolver.predict; "
       "smolgp.gp.GaussianProcess.predict; " + FN4)
FN7 = ("smolgp.solvers.integrated.parallel.kalman; smolgp.solvers.integrated.parallel.rts; "
       "smolgp.solvers.integrated.parallel.solver.ParallelIntegratedStateSpaceSolver")


def c04():
    GenI = genint()
    out = []
    for nm, dims, exps, tests, key in layouts():
        def call(*a, dims=dims, exps=exps, nm=nm):
            gp, y, xt, ks = gp_of(a, dims, exps, GenI, nm=nm)
            g = gp.condition(y).gp
            r = [g.loc, g.variance]
            if len(dims) > 1:
                for i in range(len(dims)):
                    r += list(g.get_component_mean(ks[i].name, return_var=True))
                    r += list(g.predict(kernel=ks[i].name, return_var=True))
            return r

        def post(pt, a, o, nm=nm, dims=dims, exps=exps):
            m, xt = imodel(pt.symels, a, dims, exps, nm)
            mu, var = m.data()
            r = [("conditioned mean at the data", o[0], mu),
                 ("conditioned variance at the data", o[1], var)]
            o = list(o[2:])
            if len(dims) > 1:
                for i in range(len(dims)):
                    mu, var = m.data([i])
                    for l in ("get_component_mean", "predict(kernel)"):
                        r += [(f"{l}: mean of component {i}", o.pop(0), mu),
                              (f"{l}: variance of component {i}", o.pop(0), var)]
            return r
        c = scen(f"integrated condition: {nm}", FN4, call, post, dims, exps, tests, key=key)
        out.append(c)

        def call2(*a, dims=dims, exps=exps, nm=nm):
            gp, y, xt, ks = gp_of(a, dims, exps, GenI, nm=nm)
            return gp.log_probability(y), gp.condition(y).log_probability

        def post2(pt, a, o, nm=nm, dims=dims, exps=exps):
            m, _ = imodel(pt.symels, a, dims, exps, nm)
            return [dg.loglik_obl(f"{l} is the exact marginal likelihood", q, m.Cov, m.alpha, m.y)
                    for l, q in zip(("log_probability", "condition().log_probability"), o)]
        out.append(scen(f"integrated loglik: {nm}", FN4, call2, post2, dims, exps, tests,
                        anyroot=True, retries=600))
    return out


def c05():
    GenI = genint()
    out = []
    for nm, dims, exps, tests, key in layouts():
        def call(*a, dims=dims, exps=exps, nm=nm):
            gp, y, xt, ks = gp_of(a, dims, exps, GenI, nm=nm)
            g = gp.condition(y).gp
            full = g.predict(xt, return_full_state=True)
            z = jnp.zeros_like(xt)
            xl = (xt, z, z.astype(int))
            c = gp.condition(y, xl).gp
            r = [*g.predict(xt, return_var=True), *gp.predict(xt, y, return_var=True),
                 full.loc, full.variance, c.loc, c.variance,
                 *g.predict(xl, return_var=True)]
            if len(dims) > 1:
                for i in range(len(dims)):
                    r += list(full.get_component(ks[i].name, return_var=True))
                    r += list(g.predict(xt, kernel=ks[i].name, return_var=True))
            return r

        def post(pt, a, o, nm=nm, dims=dims, exps=exps):
            m, xt = imodel(pt.symels, a, dims, exps, nm)
            xt = list(xt)
            mu, var = m.points(xt)
            o = list(o)
            r = []
            for l in ("predict", "predict(X_test, y)", "full state", "condition(y, X_test)",
                      "predict(coordinates of zero-length exposures)"):
                r += [(f"{l}: mean", o.pop(0), mu), (f"{l}: variance", o.pop(0), var)]
            if len(dims) > 1:
                for i in range(len(dims)):
                    mu, var = m.points(xt, [i])
                    for l in ("get_component", "predict(kernel)"):
                        r += [(f"{l}: mean of component {i}", o.pop(0), mu),
                              (f"{l}: variance of component {i}", o.pop(0), var)]
            return r
        out.append(scen(f"integrated predict: {nm}", FN5, call, post, dims, exps, tests, key=key))
    return out


LAB7 = ["predicted means", "predicted covariances", "filtered means", "filtered covariances",
        "smoothed means", "smoothed covariances", "conditioned mean", "conditioned variance",
        "full-state prediction mean", "full-state prediction covariance", "prediction mean",
        "prediction variance"]


def c07():
    GenI = genint()
    out = []
    for nm, dims, exps, tests, key in layouts():
        def call(*a, dims=dims, exps=exps, nm=nm):
            from smolgp.solvers.integrated import (IntegratedStateSpaceSolver,
                                                   ParallelIntegratedStateSpaceSolver)
            r = []
            for Sv in (ParallelIntegratedStateSpaceSolver, IntegratedStateSpaceSolver):
                gp, y, xt, ks = gp_of(a, dims, exps, GenI, Sv, nm=nm)
                g = gp.condition(y).gp
                s = g.states
                full = g.predict(xt, return_full_state=True)
                r.append([s.predicted_mean, s.predicted_cov, s.filtered_mean, s.filtered_cov,
                          s.smoothed_mean, s.smoothed_cov, g.loc, g.variance, full.mean, full.cov,
                          *g.predict(xt, return_var=True)])
            return r

        def post(pt, a, o, nm=nm, dims=dims, exps=exps, key=key):
            n = len(LAB7)
            r = [(f"parallel = sequential: {l}", p, q) for l, p, q in zip(LAB7, o[:n], o[n:])]
            # with simultaneous resets neither solver smooths (C04, C05)
            return r if key is None else r[:4]
        out.append(scen(f"parallel integrated: {nm}", FN7, call, post, dims, exps, tests, key=key))

        def call2(*a, dims=dims, exps=exps, nm=nm):
            from smolgp.solvers.integrated import ParallelIntegratedStateSpaceSolver as Sv
            gp, y, xt, ks = gp_of(a, dims, exps, GenI, Sv, nm=nm)
            return gp.log_probability(y), gp.condition(y).log_probability

        def post2(pt, a, o, nm=nm, dims=dims, exps=exps):
            m, _ = imodel(pt.symels, a, dims, exps, nm)
            return [dg.loglik_obl(f"{l} is the exact marginal likelihood", q, m.Cov, m.alpha, m.y)
                    for l, q in zip(("log_probability", "condition().log_probability"), o)]
        if len(exps) <= 2:
            out.append(scen(f"parallel integrated loglik: {nm}", FN7, call2, post2, dims, exps, tests,
                            anyroot=True, retries=600))
    return out
