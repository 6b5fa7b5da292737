"""Behaviour-preserving rewrites of the code, on which every check has to stay quiet.

    tools/refactors.py            list
    tools/refactors.py NAME ...   apply each to a scratch copy, run the checks it concerns
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

R = {}


def body(src, start, end, new):
    """replace from the line that starts with `start` up to (not incl.) `end`"""
    i = src.index(start)
    j = src.index(end, i) if end else len(src)
    return src[:i] + new + src[j:]


def sub(src, *pairs):
    for a, b in pairs:
        assert a in src, a
        src = src.replace(a, b)
    return src


def ref(name, props, file):
    def deco(f):
        R[name] = (props.split(), file, f)
        return f
    return deco


S = "solvers/"


@ref("kalman-xs", "C01 C02 C03", S + "kalman.py")
def _(s):
    return body(s, "    N = len(t)  # number", None, '''    lags = jnp.concatenate([jnp.zeros(1), t[1:] - t[:-1]])

    def propagate(state, dt):
        F = A(0, dt)
        return F @ state[0], F @ state[1] @ F.T + Q(0, dt)

    def update(m, P, coord, obs, r):
        Hk = H(coord)
        v = obs - Hk @ m
        S = Hk @ P @ Hk.T + r
        K = P @ Hk.T @ jnp.linalg.inv(S)
        IKH = jnp.eye(len(m)) - K @ Hk
        Pn = IKH @ P @ IKH.T + r * K @ K.T
        return m + K @ v, Pn, v, S

    def step(carry, xs):
        dt, coord, obs, r = xs
        m, P = propagate(carry, dt)
        mf, Pf, v, S = update(m, P, coord, obs, r)
        return (mf, Pf), (mf, Pf, m, P, v, S)

    return jax.lax.scan(step, (m0, P0), (lags, t, y, R))[1]
''')


@ref("kalman-fori", "C01 C02 C03", S + "kalman.py")
def _(s):
    return body(s, "    N = len(t)  # number", None, '''    N, d = t.shape[0], m0.shape[0]

    def step(k, c):
        m, P, mf, Pf, mp, Pp, vs, Ss = c
        dt = jnp.where(k > 0, t[k] - t[jnp.maximum(k - 1, 0)], 0.0)
        F = A(0, dt)
        m = F @ m
        P = jnp.einsum("ij,jk,lk->il", F, P, F) + Q(0, dt)
        Hk = H(t[k])
        S = Hk @ P @ Hk.T + R[k]
        v = y[k] - Hk @ m
        K = (P @ Hk.T) / S[0, 0]
        mn = m + K[:, 0] * v[0]
        Pn = P - K @ (Hk @ P)
        return (mn, Pn, mf.at[k].set(mn), Pf.at[k].set(Pn), mp.at[k].set(m), Pp.at[k].set(P),
                vs.at[k].set(v), Ss.at[k].set(S))

    z1, z2 = jnp.zeros((N, d)), jnp.zeros((N, d, d))
    out = jax.lax.fori_loop(0, N, step, (m0, P0, z1, z2, z1, z2, jnp.zeros((N, 1)),
                                         jnp.zeros((N, 1, 1))))
    return out[2:]
''')


@ref("rts-reverse", "C02 C03 C12", S + "rts.py")
def _(s):
    return body(s, "    N = len(t)  # number", None, '''    lag = jnp.diff(t)

    def step(carry, xs):
        mk, Pk, mp, Pp, dt = xs
        mn, Pn = carry
        F = A(0, dt)
        c = jax.scipy.linalg.cho_factor(Pp, lower=True)
        G = jax.scipy.linalg.cho_solve(c, F @ Pk).T
        m = mk + jnp.dot(G, mn - mp)
        P = Pk + jnp.linalg.multi_dot([G, Pn - Pp, G.T])
        return (m, P), (m, P)

    last = (m_filtered[-1], P_filtered[-1])
    _, (ms, Ps) = jax.lax.scan(
        step, last, (m_filtered[:-1], P_filtered[:-1], m_predicted[1:], P_predicted[1:], lag),
        reverse=True)
    return jnp.concatenate([ms, last[0][None]]), jnp.concatenate([Ps, last[1][None]])
''')


@ref("predict-where", "C03 C12", S + "solver.py")
def _(s):
    return body(s, "        # Nearest (future) datapoint", None, '''        A, Q = self.kernel.transition_matrix, self.kernel.process_noise

        def one(ts):
            k = jnp.sum(t_states <= ts)
            i = jnp.clip(k - 1, 0, K - 1)
            j = jnp.clip(k, 0, K - 1)
            before = k == 0
            after = k == K
            dt = jnp.where(before, 0.0, ts - t_states[i])
            F = A(0, dt)
            m = jnp.where(before, m0, F @ m_filtered[i])
            P = jnp.where(before, Pinf, F @ P_filtered[i] @ F.T + Q(0, dt))
            F2 = A(0, jnp.where(after, 0.0, t_states[j] - ts))
            G = P @ F2.T @ jnp.linalg.inv(P_predicted[j])
            ms = m + G @ (m_smoothed[j] - m_predicted[j])
            Ps = P + G @ (P_smoothed[j] - P_predicted[j]) @ G.T
            return jnp.where(after, m, ms), jnp.where(after, P, Ps)

        return jax.lax.map(one, t_test)
''')


@ref("predict-split", "C03 C12", S + "solver.py")
def _(s):
    return sub(s, ('k_nexts = jnp.searchsorted(t_states, t_test, side="right")',
                   'k_nexts = K - jnp.searchsorted(-t_states[::-1], -t_test, side="left")'),
               ("cases = past.astype(int) * 0 + during.astype(int) * 1 + future.astype(int) * 2",
                "cases = jnp.where(past, 0, jnp.where(future, 2, 1))"),
               ("return jax.lax.switch(\n                cases[ktest], (retrodict, interpolate, extrapolate), (ktest)\n            )",
                "return jax.lax.cond(cases[ktest] == 0, retrodict, lambda k: jax.lax.cond(cases[k] == 1, interpolate, extrapolate, k), ktest)"))


I = "solvers/integrated/"


@ref("ikalman-where", "C04 C05", I + "kalman.py")
def _(s):
    s = body(s, "        # Update the end of the exposure", "        return (m_k, P_k), (m_k", '''        start = stateid[k] == 0
        Hk = H[n]
        S = Hk @ P_pred @ Hk.T + R[n]
        v = y[n] - Hk @ m_pred
        K = jax.scipy.linalg.solve(S, Hk @ P_pred.T, assume_a="pos").T
        Rs = RESET(instid[n])
        m_k = jnp.where(start, Rs @ m_pred, m_pred + K @ v)
        P_k = jnp.where(start, Rs @ P_pred @ Rs.T, P_pred - K @ Hk @ P_pred)
        v_k = jnp.where(start, 0.0, v)
        S_k = jnp.where(start, 0.0, S)

''')
    return sub(s, ("ends_idx = jnp.nonzero(stateid == 1, size=y.shape[0])[0]",
                   "ends_idx = jnp.argsort(1 - stateid, stable=True)[: y.shape[0]]"),
               ("jnp.take(v, ends_idx, axis=0)", "v[ends_idx]"))


@ref("irts-helper", "C04 C05", I + "rts.py")
def _(s):
    s = body(s, "        def smooth_start():", "        return (m_hat_k, P_hat_k), (m_hat_k", '''        def gain(m, P, F):
            G = jnp.linalg.solve(P_pred_next, F @ P).T
            return m + G @ (m_hat_next - m_pred_next), P + G @ (P_hat_next - P_pred_next) @ G.T

        first = stateid[k] == 0
        m_hat_k, P_hat_k = jax.lax.switch(
            first.astype(int),
            [lambda: gain(m_k, P_k, A_k),
             lambda: gain(m_predicted[k], P_predicted[k], A_k @ RESET(instid[obsid[k]]))])

''')
    return sub(s, ("m_smooth_reversed[::-1]", "jnp.flip(m_smooth_reversed, axis=0)"))


@ref("istates-concat", "C04 C05 C16", I + "solver.py")
def _(s):
    return body(s, "        ts = tmid - delta / 2", "        # Pack-up state_coords", '''        half = 0.5 * delta
        n = tmid.shape[0]
        t_all = jnp.concatenate([tmid - half, tmid + half])
        o_all = jnp.concatenate([jnp.arange(n), jnp.arange(n)])
        s_all = jnp.concatenate([jnp.zeros(n, int), jnp.ones(n, int)])
        inter = jnp.argsort(o_all, stable=True)
        t_all, o_all, s_all = t_all[inter], o_all[inter], s_all[inter]
        first = jnp.argsort(-s_all, stable=True)
        order = first[jnp.argsort(t_all[first], stable=True)]
        t_states, obsid, stateid = t_all[order], o_all[order], s_all[order]

''')


@ref("parallel-scan", "C06", S + "parallel/kalman.py")
def _(s):
    s = body(s, "    A, b, C, eta, J = jax.lax.associative_scan(", "    return (A, b, C, eta, J)\n\n\n@jax.jit\ndef postprocess", '''    first = jax.tree.map(lambda a: a[0], asso_params)

    def step(carry, x):
        nxt = _combine_per_pair(carry, x)
        return nxt, nxt

    _, rest = jax.lax.scan(step, first, jax.tree.map(lambda a: a[1:], asso_params))
    A, b, C, eta, J = jax.tree.map(lambda f, r: jnp.concatenate([f[None], r]), first, rest)

''')
    return sub(s, ("    Aij = Aj @ jnp.linalg.solve(D, Ai)\n    bij = Aj @ jnp.linalg.solve(D, bi + Ci @ etaj) + bj\n    Cij = Aj @ jnp.linalg.solve(D, Ci) @ Aj.T + Cj\n",
                   "    AD = jnp.linalg.solve(D.T, Aj.T).T\n    Aij = AD @ Ai\n    bij = AD @ (bi + Ci @ etaj) + bj\n    Cij = AD @ Ci @ Aj.T + Cj\n"))


@ref("logprob-direct", "C01 C04", "gp.py")
def _(s):
    return body(s, "        L = jax.vmap(jnp.linalg.cholesky)(S)", "        return jnp.where(jnp.isfinite(loglike)", '''        def term(vk, Sk):
            quad = vk @ jnp.linalg.solve(Sk, vk)
            return quad + jnp.linalg.slogdet(2 * jnp.pi * Sk)[1]

        loglike = -0.5 * jax.vmap(term)(v, S).sum()

''')


@ref("logprob-scalar", "C01 C04", "gp.py")
def _(s):
    return body(s, "        L = jax.vmap(jnp.linalg.cholesky)(S)", "        return jnp.where(jnp.isfinite(loglike)", '''        s = S.reshape(-1)
        r = v.reshape(-1) / jnp.sqrt(s)
        logpdf = -0.5 * r * r - 0.5 * jnp.log(s) - 0.5 * jnp.log(2 * jnp.pi)
        loglike = logpdf.sum()

''')


@ref("logprob-scipy", "C01 C04", "gp.py")
def _(s):
    return body(s, "        L = jax.vmap(jnp.linalg.cholesky)(S)", "        return jnp.where(jnp.isfinite(loglike)", '''        loglike = jnp.sum(jax.scipy.stats.norm.logpdf(v[:, 0], 0.0, jnp.sqrt(S[:, 0, 0])))

''')


@ref("gp-project", "C02 C04 C12 C16", "gp.py")
def _(s):
    s = body(s, "        N = jnp.array(self.X).shape[-1]\n        ends_idx", "class PredictedStates", '''        n = jax.tree.leaves(self.X)[0].shape[0]
        order = jnp.lexsort((self.obsid, 1 - self.stateid))[:n]
        H = jax.vmap(observation_model)(self.X)
        mu = jnp.einsum("nij,nj->n", H, self.smoothed_mean[order])
        var = jnp.einsum("nij,njk,nik->n", H, self.smoothed_cov[order], H)
        return mu, var


''')
    return sub(s, ("""            for k, name in enumerate(component[1:]):
                H += self.kernel.observation_model(X, component=name)
            return H

        ## Project at data""", """            return sum([self.kernel.observation_model(X, component=n) for n in component[1:]], H)

        ## Project at data"""))


@ref("names-counter", "C15 C12", "gp.py")
def _(s):
    return body(s, "    leaves = extract_leaf_kernels(kernel)\n    names", "class ConditionedStates", '''    from collections import Counter
    from itertools import count as naturals

    old = [leaf.name for leaf in extract_leaf_kernels(kernel)]
    many = {n for n, c in Counter(old).items() if c > 1}
    if not many:
        return kernel
    seen = set(old)
    fresh = []
    for n in old:
        if n in many:
            n = next(c for c in (f"{n}_{i}" for i in naturals(1)) if c not in seen)
            seen.add(n)
        fresh.append(n)
    queue = iter(fresh)

    def rebuild(k):
        if isinstance(k, Sum):
            left = rebuild(k.kernel1)
            return Sum(left, rebuild(k.kernel2))
        n = next(queue)
        return k if n == k.name else dataclasses.replace(k, name=n)

    return rebuild(kernel)


''')


K = "kernels/"


@ref("evaluate-abs", "C08 C10 C14 C03", K + "base.py")
def _(s):
    return body(s, "        Pinf = self.stationary_covariance()\n        h1 = self.obs", "    def evaluate_diag", '''        a, b = self.coord_to_sortable(X1), self.coord_to_sortable(X2)
        first = a < b
        h1, h2 = self.observation_model(X1), self.observation_model(X2)
        ha = jnp.where(first, h1, h2)
        hb = jnp.where(first, h2, h1)
        A = self.transition_matrix(0.0, jnp.abs(b - a))
        return jnp.einsum("ai,ij,bj->ab", hb, A @ self.stationary_covariance(), ha)[0, 0]

''')


@ref("psd-solve", "C14", K + "base.py")
def _(s):
    return body(s, "            M = jnp.linalg.inv(F + 1j * w * I)", "        return jax.vmap(compute_psd)(omega)", '''            g = jnp.linalg.solve(1j * w * I - F, L.astype(complex))
            h = (H @ g)[0]
            return jnp.sum(jnp.real((h @ Qc) * jnp.conj(h))) / (2 * jnp.pi)

''')


@ref("sum-blocks", "C10 C12 C01", K + "base.py")
def _(s):
    i, j = s.index("class Sum("), s.index("class Product(")
    t = s[i:j]
    t = t.replace("Block(", "jax.scipy.linalg.block_diag(").replace(".to_dense()", "")
    t = t.replace("jnp.hstack(", "jnp.concatenate(").replace(
        "component=component),\n            )\n        )", "component=component),\n            ), axis=1\n        )").replace(
        "observation_matrix(X),\n            )\n        )", "observation_matrix(X),\n            ), axis=-1\n        )")
    return s[:i] + t + s[j:]


@ref("product-einsum", "C10", K + "base.py")
def _(s):
    i, j = s.index("class Product("), s.index("class Wrapper(")
    t = s[i:j].replace("jnp.kron(", "_kron(")
    t = t.replace("return _kron(Pinf1, Q2) + _kron(Q1, Pinf2) - _kron(Q1, Q2)",
                  "P, A = self.stationary_covariance(), self.transition_matrix(X1, X2)\n        return P - A @ P @ A.T")
    h = '''def _kron(A, B):
    out = jnp.einsum("ij,kl->ikjl", A, B)
    return out.reshape(A.shape[0] * B.shape[0], A.shape[1] * B.shape[1])


'''
    return s[:i] + h + t + s[j:]


@ref("sho-switch", "C08 C09 C10", K + "base.py")
def _(s):
    return sub(s, ("""        return jax.lax.cond(
            jnp.allclose(q, 0.5),
            critical,
            lambda dt: jax.lax.cond(q > 0.5, underdamped, overdamped, dt),
            dt,
        )""", """        regime = jnp.where(jnp.isclose(q, 0.5), 0, jnp.where(q > 0.5, 1, 2))
        return jax.lax.switch(regime, [critical, underdamped, overdamped], dt)"""),
               ("cosh = 0.5 * decay * (1 + jnp.exp(-2 * x))", "cosh = decay - sinh"),
               ("jnp.exp(-w * dt) * jnp.array(\n                [[1 + w * dt, dt], [-jnp.square(w) * dt, 1 - w * dt]]\n            )",
                "jnp.exp(-w * dt) * (jnp.eye(2) + dt * (self.design_matrix() + w * jnp.eye(2)))"),
               ("sin2 = jnp.sin(2 * x)", "sin2 = 2 * sin * jnp.cos(x)"))


@ref("matern-default-Q", "C08 C09 C10", K + "base.py")
def _(s):
    i, j = s.index("class Matern32("), s.index("class Matern52(")
    t = s[i:j]
    t = body(t, "        lam = self.lam\n        arg = 2", None, '''        P = self.stationary_covariance()
        A = self.transition_matrix(0.0, dt)
        Q = P - A @ P @ A.T
        return (Q + Q.T) / 2


''')
    s = s[:i] + t + s[j:]
    i, j = s.index("class Matern52("), s.index("class Cosine(")
    t = s[i:j]
    t = body(t, "        a11 = 0.5 * lam2 * d2 + lam * dt + 1", "    def process_noise", '''        N = self.design_matrix() + lam * jnp.eye(3)
        return jnp.exp(-lam * dt) * (jnp.eye(3) + N * dt + N @ N * d2 / 2)

''')
    t = t.replace("jnp.power(lam, 4)", "l2 * l2").replace("jnp.power(dt, 4)", "dt2**2").replace("jnp.power(lam, 5)", "l2 * l2 * lam")
    return s[:i] + t + s[j:]


@ref("matern-comb", "C08 C09", K + "base.py")
def _(s):
    i = s.index("class Matern(")
    t = s[i:]
    t = body(t, "        F = jnp.zeros((d, d))\n        for i in range(d - 1)", "    def observation_matrix", '''        import math
        last = jnp.stack([-math.comb(d, i) * self.lam ** (d - i) for i in range(d)])
        return jnp.concatenate([jnp.eye(d, k=1)[:-1], last[None]])

''')
    t = sub(t, ("A = term = jnp.eye(d)\n        for k in range(1, d):\n            term = term @ N / k\n            A = A + term",
                "A = jnp.eye(d)\n        for k in range(d - 1, 0, -1):\n            A = jnp.eye(d) + (N @ A) / k"))
    return s[:i] + t


@ref("bessel-scan", "C13", K + "base.py")
def _(s):
    return sub(s, ("""            k = jnp.arange(terms)
            log_terms = (
                -gammaln(k + 1) - gammaln(k + j + 1) + (2 * k + j) * jnp.log(x / 2)
            )
            return jnp.sum(jnp.exp(log_terms))""", """            import math
            h = x / 2
            term = h**j / float(math.factorial(j))
            total = term
            for k in range(1, terms):
                term = term * h * h / (k * (k + j))
                total = total + term
            return total"""),
               ("coeff = jax.lax.cond(j == 0, lambda _: 1.0, lambda _: 2.0, j)", "coeff = 1.0 if j == 0 else 2.0"),
               ("coeff * self.Ij(j, arg) / jnp.exp(arg)", "coeff * jnp.exp(-arg) * self.Ij(j, arg)"))


@ref("integrated-onehot", "C11 C04 C16", K + "integrated.py")
def _(s):
    s = body(s, "            t, delta, instid = X\n            H_aug = jax.lax.cond", "        else:\n            # default to latent", '''            t, delta, instid = X
            idx = jnp.arange(self.dimension)
            long = delta > 0
            z = (idx == self.d + instid) / jnp.where(long, delta, 1.0)
            H_aug = jnp.where(long, z, 1.0 * (idx == 0))
''')
    s = sub(s, ("""        diag = jnp.ones(self.dimension)
        diag = jax.lax.dynamic_update_slice(diag, jnp.array([0.0]), (self.d + instid,))
        return jnp.diag(diag)""", """        keep = jnp.arange(self.dimension) != self.d + instid
        return jnp.eye(self.dimension) * keep[:, None]"""))
    s = body(s, "        PHIAUG = jnp.eye(self.dimension)\n", "    def integrated_process_noise", '''        n = self.num_insts
        top = jnp.concatenate([PHI, jnp.zeros((self.d, n))], axis=1)
        bottom = jnp.concatenate([jnp.broadcast_to(INTPHI, (n, self.d)), jnp.eye(n)], axis=1)
        return jnp.concatenate([top, bottom])

''')
    s = body(s, "        QAUG = jnp.tile(Qaug22", "    def reset_matrix", '''        n = self.num_insts
        return jnp.block(
            [[Qbase, jnp.tile(Qaug12, (1, n))], [jnp.tile(Qaug21, (n, 1)), jnp.tile(Qaug22, (n, n))]]
        )

''')
    return s


@ref("integrated-cond", "C11", K + "integrated.py")
def _(s):
    return sub(s, ("""        Phibar = jnp.where(
            is_large,
            jnp.linalg.solve(jnp.where(is_large, F, I), A - I),
            Phibar_from_VanLoan(F, jnp.where(is_large, 0.0, dt)),
        )""", """        Phibar = jax.lax.cond(
            is_large,
            lambda: jnp.linalg.inv(F) @ (A - I),
            lambda: Phibar_from_VanLoan(F, dt),
        )"""))


@ref("dense-where", "C17", K + "dense.py")
def _(s):
    i = s.index("    def evaluate(self, X1, X2):", s.index("class IntegratedSHOKernel"))
    print(s[i:i + 3500])
    return s.replace("Delta = jnp.abs(t1 - t2)", "Delta = jnp.maximum(t1, t2) - jnp.minimum(t1, t2)")


def run(name):
    props, file, f = R[name]
    w = tempfile.mkdtemp(prefix="ref-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", w + "/src")
        p = f"{w}/src/smolgp/{file}"
        old = open(p).read()
        new = f(old)
        assert new != old
        open(p, "w").write(new)
        for pr in (os.environ.get("PROPS", "").split() or props):
            o = subprocess.run([sys.executable, "run.py", pr], capture_output=True, text=True,
                               cwd="/verif", env=dict(os.environ, SMOLGP_SRC=w + "/src"))
            lines = [l for l in o.stdout.splitlines() if "code under" not in l]
            print("==", name, pr, "exit", o.returncode)
            print("\n".join(lines[:int(os.environ.get("LINES_", 6))]), flush=True)
            if o.stderr.strip():
                print(o.stderr[-500:])
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(" ".join(R))
    for n in sys.argv[1:]:
        run(n)
