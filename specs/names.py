"""C15: unique component names."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from vc.contract import Contract, Par, SpecFail
from .generic import Gen, gen_pars, NG
from .kernels import T1

FN = ("smolgp.gp.assign_unique_kernel_names; smolgp.gp.GaussianProcess.__init__; "
      "smolgp.kernels.base.extract_leaf_kernels")


def trees(n):
    """all binary trees over leaves 0..n-1, in order"""
    def go(a, b):
        if b - a == 1:
            yield a
            return
        for m in range(a + 1, b):
            for l in go(a, m):
                for r in go(m, b):
                    yield (l, r)
    yield from go(0, n)


def build(t, leaves):
    if isinstance(t, int):
        return leaves[t]
    return build(t[0], leaves) + build(t[1], leaves)


def leaves_of(k):
    from smolgp.kernels.base import Sum
    return leaves_of(k.kernel1) + leaves_of(k.kernel2) if isinstance(k, Sum) else [k]


ALPHA = ["a", "a_1", "a_2", "b", "a_1_1"]


class Names:
    """exhaustive up to 5 components (bounded): every tree shape up to 4 leaves with every choice of
    names from an alphabet of names and suffixed names, three shapes of 5 leaves"""
    fn, numeric = FN, False

    def __init__(self, n):
        self.n, self.name = n, f"names of {n} components"

    def check(self, names, got, how):
        n = len(names)
        if len(got) != n:
            return f"{how}: {len(got)} components instead of {n}: {got}"
        if len(set(got)) != n:
            return f"{how}: names {names} became {got}, not distinct"
        for a, b in zip(names, got):
            if names.count(a) == 1 and a != b:
                return f"{how}: unique name {a!r} of {names} was changed to {b!r}"
            if names.count(a) > 1 and not (b.startswith(a) and (b == a or len(b) > len(a))):
                return f"{how}: name {a!r} of {names} became {b!r}, not a suffixed name"
        return None

    def discharge(self, rep):
        from smolgp.gp import GaussianProcess, assign_unique_kernel_names as assign
        import smolgp.kernels.base as K
        import smolgp.kernels.integrated as I
        n = self.n
        shapes = list(trees(n))
        if n == 5:
            shapes = [shapes[0], shapes[-1], shapes[6]]
        tot, bad, gps = 0, None, 0
        t = jnp.arange(3.0)
        for sh in shapes:
            for names in itertools.product(ALPHA, repeat=n):
                names = list(names)
                ls = [K.Exp(scale=1.0 + i, sigma=2.0 + i, name=nm) for i, nm in enumerate(names)]
                k = build(sh, ls)
                tot += 1
                try:
                    r = assign(k)
                    got = leaves_of(r)
                    bad = self.check(names, [g.name for g in got], "assign_unique_kernel_names")
                    if not bad and [(float(g.scale), float(g.sigma)) for g in got] != \
                            [(1.0 + i, 2.0 + i) for i in range(n)]:
                        bad = f"order or hyperparameters of {names} changed"
                    if not bad and tot % 37 == 1:
                        gps += 1
                        gp = GaussianProcess(k, t, diag=.1)
                        bad = self.check(names, [g.name for g in leaves_of(gp.kernel)], "GaussianProcess")
                        gp = GaussianProcess(k, t, diag=.1, use_unique_names=False)
                        if [g.name for g in leaves_of(gp.kernel)] != names:
                            bad = bad or "use_unique_names=False renamed components"
                except Exception as e:
                    bad = f"names {names}: {e!r}"[:300]
                if bad:
                    rep.ob(self.name, FN, "refuted", "enumeration", 0, bad)
                    rep.violate(self.name, dict(summary=bad, inputs=dict(names=names, tree=str(sh)),
                                                function=FN))
                    return
        rep.count((self.name, tot))
        rep.ob(self.name, FN, "bounded", "enumeration", 0, f"{tot} sums, {gps} of them as models")
        if n != 3:
            return
        # components of every kind
        mk = [lambda nm: K.Exp(scale=1., name=nm), lambda nm: K.SHO(omega=1., quality=2., name=nm),
              lambda nm: 2.0 * K.Exp(scale=1., name=nm),
              lambda nm: K.Exp(scale=1., name=nm) * K.Cosine(scale=2., name=nm),
              lambda nm: K.ExpSineSquared(period=1., gamma=1., name=nm, order=2),
              lambda nm: K.Matern(nu=1.5, scale=1., name=nm),
              lambda nm: 3.0 * (K.Exp(scale=1., name=nm) * K.Exp(scale=2., name=nm))]
        every = mk + [lambda nm: K.Matern32(scale=1., name=nm), lambda nm: K.Matern52(scale=1., name=nm),
                      lambda nm: K.Cosine(scale=1., name=nm), lambda nm: K.Constant(sigma=1., name=nm),
                      lambda nm: I.IntegratedSHO(omega=1., quality=2., num_insts=2, name=nm),
                      lambda nm: I.IntegratedExp(scale=1., num_insts=2, name=nm),
                      lambda nm: I.IntegratedMatern32(scale=1., num_insts=1, name=nm),
                      lambda nm: I.IntegratedMatern52(scale=1., num_insts=1, name=nm),
                      lambda nm: I.IntegratedCosine(scale=1., num_insts=2, name=nm),
                      lambda nm: 2. * I.IntegratedSHO(omega=1., quality=2., num_insts=2, name=nm)]
        tot = 0
        for f in list(itertools.product(mk, repeat=3)) + [(g, g, mk[0]) for g in every]:
            for names in (["a", "a", "a"], ["a", "b", "a"], ["a", "a", "a_1"]):
                k = (f[0](names[0]) + f[1](names[1])) + f[2](names[2])
                orig = [l.name for l in leaves_of(k)]
                tot += 1
                try:
                    got = leaves_of(assign(k))
                    bad = self.check(orig, [g.name for g in got], "assign_unique_kernel_names")
                    # only the name of the component itself is new
                    la, lb = jax.tree_util.tree_leaves(k), jax.tree_util.tree_leaves(assign(k))
                    num = lambda l: [np.asarray(x).tolist() for x in l if not isinstance(x, str)]
                    if not bad and num(la) != num(lb):
                        bad = f"hyperparameters changed for {orig}"
                    if not bad and [type(x) for x in leaves_of(k)] != [type(x) for x in got]:
                        bad = f"component types changed for {orig}"
                except Exception as e:
                    bad = f"components {[type(l).__name__ for l in leaves_of(k)]} named {orig}: {e!r}"[:300]
                if bad:
                    rep.ob(self.name + " (kinds)", FN, "refuted", "enumeration", 0, bad)
                    rep.violate(self.name + " (kinds)", dict(summary=bad, inputs=dict(names=orig), function=FN))
                    return
        rep.ob(self.name + " (kinds)", FN, "bounded", "enumeration", 0, f"{tot} sums of 17 kinds of component")


def c15():
    from smolgp.gp import GaussianProcess
    out = []
    for sh, names in [((0, 1), ["a", "a"]), (((0, 1), 2), ["a", "b", "a"]), ((0, (1, 2)), ["a", "a", "a_1"]),
                      (((0, 1), (2, 3)), ["a", "a", "b", "b"]), ((0, 1), ["a", "b"])]:
        n = len(names)
        dims = [1 + i % 2 for i in range(n)]

        def call(*a, sh=sh, names=names, dims=dims, n=n):
            ks = [Gen(names[i], *a[NG * i:NG * (i + 1)]) for i in range(n)]
            t1, dt = a[NG * n:]
            k = build(sh, ks)
            gp = GaussianProcess(k, jnp.stack([t1, t1 + 1.0]), diag=0.1)
            r = gp.kernel
            new = [l.name for l in leaves_of(r)]
            if len(set(new)) != n:
                raise SpecFail(f"names {names} became {new}, not distinct")
            f = lambda k: (k.design_matrix(), k.noise_effect_matrix(), k.noise(), k.stationary_covariance(),
                           k.transition_matrix(t1, t1 + dt), k.process_noise(t1, t1 + dt),
                           k.observation_matrix(t1), k.observation_model(t1), k.reset_matrix(1),
                           k.evaluate(t1, t1 + dt), k.evaluate_diag(t1))
            comp = [(r.observation_model(t1, component=m),) for m in new]
            hs = [(q.observation_matrix(t1),) for q in ks]
            return f(k), f(r), comp, hs

        def post(a, o, dims=dims, n=n):
            L = ["design_matrix", "noise_effect_matrix", "noise", "stationary_covariance", "transition_matrix",
                 "process_noise", "observation_matrix", "observation_model", "reset_matrix", "evaluate",
                 "evaluate_diag"]
            m = len(L)
            r = [(f"renaming leaves {l} unchanged", p, q) for l, q, p in zip(L, o[:m], o[m:2 * m])]
            from vc import linalg as la
            off, d = 0, sum(dims)
            for i in range(n):
                w = la.zeros(1, d)
                w[:, off:off + dims[i]] = o[2 * m + n + i]
                off += dims[i]
                r.append((f"the new name selects component {i}", o[2 * m + i], w))
            return r
        ps = []
        for i in range(n):
            ps += gen_pars(str(i), dims[i], dims[i], Par)
        out.append(Contract(f"C15.renaming {names}", FN, call,
                            ps + [T1, Par("dt", "pos", .1, 3)], post, draws=2, numeric=False))
    return [Names(n) for n in (5, 4, 3, 2, 1)] + out
