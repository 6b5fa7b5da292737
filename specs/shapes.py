"""C16: one result per coordinate, in the caller's order."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from vc import field as fd
from .kernels import sc
from . import solver as S
from . import intsolver as IS

FN = ("smolgp.gp.GaussianProcess.condition; smolgp.gp.GaussianProcess.predict; "
      "smolgp.gp.GaussianProcess.log_probability; smolgp.gp.ConditionedStates.project_at_data; "
      "smolgp.gp.PredictedStates; smolgp.solvers.solver.StateSpaceSolver.predict; "
      "smolgp.solvers.integrated.solver.IntegratedStateSpaceSolver; "
      "smolgp.solvers.parallel.solver.ParallelStateSpaceSolver.predict; "
      "smolgp.solvers.integrated.parallel.solver.ParallelIntegratedStateSpaceSolver")


def c16():
    from smolgp.solvers import StateSpaceSolver, ParallelStateSpaceSolver
    from smolgp.solvers.integrated import (IntegratedStateSpaceSolver,
                                           ParallelIntegratedStateSpaceSolver)
    out = []
    GenI = IS.genint()
    # permuting exposures permutes the results
    LAY = [l for l in IS.E1 if len(l[2]) > 1 and l[0] not in IS.EX and l[0] not in
           ("unused instrument", "zero-length at the midpoint", "equal lengths, overlap")]
    for par in (False, True):
        for nm, dims, exps, tests in (LAY[1:4] + LAY[8:9] + LAY[11:12] if par else LAY):
            n = len(exps)
            perms = [p for p in itertools.permutations(range(n)) if p != tuple(range(n))]
            perms = perms[:2] if n > 2 else perms
            if par:
                perms = perms[:1]

            def call(*a, dims=dims, exps=exps, perms=perms, par=par):
                from smolgp.gp import GaussianProcess
                sv = ParallelIntegratedStateSpaceSolver if par else None
                gp, y, xt, ks = IS.gp_of(a, dims, exps, GenI, sv)
                t, de, ii = gp.X
                nz = a[IS.NP * len(dims) + 4]

                def res(gp, y, xt):
                    g = gp.condition(y).gp
                    return [g.loc, g.variance,
                            *g.predict(xt, return_var=True), *gp.predict(xt, y, return_var=True)]
                base = res(gp, y, xt)
                rest = []
                q = np.argsort(np.arange(len(xt)) * 7 % len(xt), kind="stable")[::-1]
                for p in perms:
                    p = np.array(p)
                    gp2 = GaussianProcess(gp.kernel, (t[p], de[p], ii[p]), diag=nz[p],
                                          solver=sv)
                    rest.append(res(gp2, y[p], xt[q]))
                return base, rest

            def post(pt, a, o, exps=exps, perms=perms):
                b, o = o[:6], o[6:]
                M = len(a[-1])
                q = np.argsort(np.arange(M) * 7 % M, kind="stable")[::-1]
                r = []
                for p in perms:
                    c, o = o[:6], o[6:]
                    p = list(p)
                    r += [(f"conditioned mean of permuted data {p}", c[0], b[0][p]),
                          (f"conditioned variance of permuted data {p}", c[1], b[1][p])]
                    for k, l in ((2, "predict mean"), (3, "predict variance"),
                                 (4, "predict(X_test, y) mean"), (5, "predict(X_test, y) variance")):
                        r.append((f"{l} of permuted data and test points {p}", c[k], b[k][q]))
                return r
            out.append(IS.scen(f"{'parallel ' if par else ''}permuted exposures: {nm}", FN, call, post,
                               dims, exps, tests))
            if n > 2 and par:
                continue

            def call2(*a, dims=dims, exps=exps, perms=perms, par=par):
                from smolgp.gp import GaussianProcess
                sv = ParallelIntegratedStateSpaceSolver if par else None
                gp, y, xt, ks = IS.gp_of(a, dims, exps, GenI, sv)
                t, de, ii = gp.X
                nz = a[IS.NP * len(dims) + 4]
                p = np.array(perms[0])
                gp2 = GaussianProcess(gp.kernel, (t[p], de[p], ii[p]), diag=nz[p], solver=sv)
                return (gp.log_probability(y), gp2.log_probability(y[p]),
                        gp2.condition(y[p]).log_probability)

            def post2(pt, a, o):
                if fd.MONLY:
                    return [("log-probability of permuted data", o[1], o[0]),
                            ("condition().log_probability of permuted data", o[2], o[0])]
                e = [sc(fd.el_exp(x[()] * fd.lift(-2)) if x[()].f is not None else x[()]) for x in o]
                return [("log-probability of permuted data", e[1], e[0]),
                        ("condition().log_probability of permuted data", e[2], e[0])]
            out.append(IS.scen(f"{'parallel ' if par else ''}permuted exposures, log-probability: {nm}", FN,
                               call2, post2, dims, exps, tests, anyroot=True, retries=600))

    # permuting test points; instantaneous data
    for par in (False, True):
        for dims, ranks, tests in [((1,), (1, 2), (0, 3)), ((2,), (1, 3), (4, 2, 0, 2)),
                                   ((1, 1), (1, 3, 3), (2, 0, 3))]:
            def call(*a, dims=dims, par=par):
                gp, y = S.GPof(a, dims, ParallelStateSpaceSolver if par else None)
                g = gp.condition(y).gp
                xt = a[-1]
                f = lambda x: [*g.predict(x, return_var=True), *gp.predict(x, y, return_var=True)]
                one = [f(xt[k:k + 1]) for k in range(len(xt))]
                return f(xt), f(xt[::-1]), one

            def post(pt, a, o):
                M = len(a[-1])
                b, c, one = o[:4], o[4:8], o[8:]
                r = []
                for k, l in enumerate(("mean", "variance", "mean (predict(X_test, y))",
                                       "variance (predict(X_test, y))")):
                    r.append((f"{l} of reversed test points", c[k], b[k][::-1]))
                    for m in range(M):
                        r.append((f"{l} of test point {m} alone", one[4 * m + k], b[k][m:m + 1]))
                return r
            out.append(S.scen(f"{'parallel ' if par else ''}test points {S.tag(dims, ranks, tests)}", FN,
                              call, post, dims, ranks, tests, hvar=False))
    return [Shapes(k, n) for k, n in ((0, "instantaneous"), (1, "parallel"), (2, "integrated"),
                                            (3, "parallel integrated"))] + out


class Shapes:
    """shapes of every result by abstract evaluation of the real code (no values involved), for
    N data and M test points up to 64; bounded"""
    fn, numeric = FN, False

    def __init__(self, part, label):
        self.part, self.name = part, f"result shapes: {label}"

    def discharge(self, rep):
        import smolgp
        from smolgp.gp import GaussianProcess
        import smolgp.kernels.base as K
        from smolgp.kernels import integrated as I
        from smolgp.solvers import StateSpaceSolver, ParallelStateSpaceSolver
        from smolgp.solvers.integrated import (IntegratedStateSpaceSolver,
                                               ParallelIntegratedStateSpaceSolver)
        f64 = lambda *s: jax.ShapeDtypeStruct(s, jnp.float64)
        kern = {"Matern32": lambda: K.Matern32(scale=1.3, sigma=.7),
                "Exp+SHO": lambda: K.Exp(scale=2.) + K.SHO(omega=1., quality=2.),
                "Exp*Cosine": lambda: K.Exp(scale=2.) * K.Cosine(scale=1.)}
        ikern = {"IntegratedExp": lambda: I.IntegratedExp(scale=1.3, num_insts=2),
                 "IntegratedSHO+IntegratedExp": lambda: I.IntegratedSHO(omega=1., quality=2., num_insts=2)
                 + I.IntegratedExp(scale=1.3, num_insts=2)}
        cases = [[(n, k, None, False) for n, k in kern.items()],
                 [(n, k, ParallelStateSpaceSolver, False) for n, k in kern.items()],
                 [(n, k, None, True) for n, k in ikern.items()],
                 [(n, k, ParallelIntegratedStateSpaceSolver, True) for n, k in ikern.items()]][self.part]
        NM = [(1, 1), (1, 3), (3, 1), (5, 2), (64, 33)]
        tot = 0
        for n, mk, sv, integ in cases:
            for N, M in NM:
                def call(t, d, y, nz, xt, mk=mk, sv=sv, integ=integ):
                    k = mk()
                    X = (t, d, jnp.zeros(t.shape, int)) if integ else t
                    gp = GaussianProcess(k, X, diag=nz, solver=sv)
                    c = gp.condition(y)
                    g = c.gp
                    full = g.predict(xt, return_full_state=True)
                    comp = full.get_all_components(return_var=True)
                    at = g.get_all_component_means(return_var=True)
                    return dict(scalar=[gp.log_probability(y), c.log_probability],
                                data=[g.loc, g.variance, *g.predict(return_var=True), g.predict()]
                                + [x for v in at.values() for x in v],
                                test=[*g.predict(xt, return_var=True), g.predict(xt),
                                      *gp.predict(xt, y, return_var=True), gp.predict(xt, y),
                                      full.loc, full.variance]
                                + [x for v in comp.values() for x in v])
                nm = f"shapes {n} {sv.__name__ if sv else 'default'} N={N} M={M}"
                try:
                    r = jax.eval_shape(call, f64(N), f64(N), f64(N), f64(N), f64(M))
                    bad = [(k, [tuple(x.shape) for x in v]) for k, v in r.items()
                           if any(tuple(x.shape) != dict(scalar=(), data=(N,), test=(M,))[k] for x in v)]
                except Exception as e:
                    bad = repr(e)[:300]
                tot += 1
                rep.count(nm)
                if bad:
                    rep.ob(nm, self.fn, "refuted", "abstract evaluation", 0, str(bad)[:300])
                    rep.violate(nm, dict(summary=f"{nm}: {bad}"[:600], function=self.fn))
                    return
        rep.ob(f"result shapes  ({self.name}): {tot} combinations of kernel, N and M", self.fn, "bounded",
               "abstract evaluation")
        if self.part:
            return
        # a pair of coordinates gives a scalar
        tot = 0
        for n, mk in {**kern, "2*Exp": lambda: 2. * K.Exp(scale=2.), "Constant": lambda: K.Constant(),
                      "Matern": lambda: K.Matern(nu=2.5, scale=1.), "Matern52": lambda: K.Matern52(scale=1.),
                      "Cosine": lambda: K.Cosine(scale=1.), "SHO": lambda: K.SHO(omega=1., quality=.3),
                      "ExpSineSquared": lambda: K.ExpSineSquared(period=1., gamma=1.)}.items():
            try:
                k = mk()
                sh = [tuple(x.shape) for x in jax.eval_shape(
                    lambda a, b: (k.evaluate(a, b), k.evaluate(a, a), k.evaluate_diag(a)),
                    f64(), f64())]
            except Exception as e:
                sh = repr(e)[:200]
            tot += 1
            if sh != [(), (), ()]:
                nm = f"scalar covariance of {n}"
                rep.ob(nm, "smolgp.kernels.base.StateSpaceModel.evaluate", "refuted", "abstract evaluation")
                rep.violate(nm, dict(summary=f"{nm}: shapes {sh}", function="evaluate"))
                return
        rep.ob(f"a pair of coordinates gives a scalar covariance: {tot} kernels",
               "smolgp.kernels.base.StateSpaceModel.evaluate; smolgp.kernels.base.StateSpaceModel.evaluate_diag",
               "proved", "abstract evaluation")
