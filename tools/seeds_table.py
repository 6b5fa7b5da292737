seed("tiny-innovation", "C01", "gp.py",
     "logdetS = 2.0 * jnp.sum(jnp.log(jnp.diagonal(L, axis1=-2, axis2=-1)), axis=1)",
     "diagL = jnp.maximum(jnp.diagonal(L, axis1=-2, axis2=-1), 1e-4)\n"
     "        logdetS = 2.0 * jnp.sum(jnp.log(diagL), axis=1)",
     "an innovation variance below 1e-8 (data in small units)",
     "log-probability of data in small units is too low: the determinant is floored",
     '''
t = np.array([0., .7, 1.1, 2.9]); y = np.array([1., -2., .5, 1.5]) * 1e-6
s = 2e-6
C = gram(exp_k(s, 1.3), t, t) + np.diag(np.full(4, (3e-7)**2))
gp = GaussianProcess(K.Exp(scale=1.3, sigma=s), jnp.array(t), diag=jnp.full(4, (3e-7)**2))
close(gp.log_probability(jnp.array(y)), logprob(C, y))
''')

seed("stale-observation", "C02", "solvers/kalman.py",
     "H_k = H(t[k])  # observation model for this time step",
     "H_k = H(t[jnp.minimum(k, N - 2)])  # observation model for this time step",
     "a kernel whose observation matrix varies with the coordinate, and the last datum",
     "the last datum is observed with the previous datum's observation matrix",
     '''
class Growing(K.Exp):
    def observation_matrix(self, X):
        return jnp.array([[1. + X]])
t = np.array([0., .4, 1.]); y = np.array([1., -.3, .8])
C0 = gram(exp_k(1.2, .9), t, t) * np.outer(1 + t, 1 + t)
C = C0 + .1 * np.eye(3)
gp = GaussianProcess(Growing(scale=.9, sigma=1.2), jnp.array(t), diag=jnp.full(3, .1))
lp, cond = gp.condition(jnp.array(y))
m, v = posterior(C, C0, np.diag(C0), y)
close(cond.loc, m); close(cond.variance, v)
''')

seed("sorted-tests", "C03", "solvers/solver.py",
     'k_nexts = jnp.searchsorted(t_states, t_test, side="right")',
     'k_nexts = jax.lax.cummax(jnp.searchsorted(t_states, t_test, side="right"))',
     "test points that are not in increasing order",
     "a test point that comes after a later one in X_test is predicted from the wrong data",
     '''
t = np.array([0., .5, 1.2, 2.]); y = np.array([1., -.3, .8, .1])
k = exp_k(1.2, .9)
for x in ([.2, 1.7, .3, -.4, 2.5], [1.9, .1], [3., -1.]):
    x = np.array(x)
    gp = GaussianProcess(K.Exp(scale=.9, sigma=1.2), jnp.array(t), diag=jnp.full(4, .1))
    mu, var = gp.predict(jnp.array(x), jnp.array(y), return_var=True)
    m, v = posterior(gram(k, t, t) + .1 * np.eye(4), gram(k, x, t), np.full(len(x), 1.44), y)
    close(mu, m); close(var, v)
''')

seed("touching-exposures", "C04", "solvers/integrated/solver.py",
     "sortidx = jnp.lexsort((-stateid, t_states))",
     "sortidx = jnp.argsort(t_states)",
     "an exposure starting exactly when the previous one ends, listed before it in the data",
     "the integral is reset before the touching exposure's measurement is read",
     '''
t = np.array([1.5, .5]); d = np.array([1., 1.]); y = np.array([.7, -.4])
for i, (tt, dd, yy) in enumerate([(t, d, y), (t[::-1], d, y[::-1])]):
    g = exp_gram(1.1, .8, spans(tt, dd), spans(tt, dd))
    C = g + .05 * np.eye(2)
    X = (jnp.array(tt), jnp.array(dd), jnp.zeros(2, int))
    gp = GaussianProcess(I.IntegratedExp(scale=.8, sigma=1.1), X, diag=jnp.full(2, .05))
    lp, cond = gp.condition(jnp.array(yy))
    close(lp, logprob(C, yy))
    m, v = posterior(C, g, np.diag(g), yy)
    close(cond.loc, m); close(cond.variance, v)
''')

seed("short-exposures", "C04", "kernels/integrated.py",
     "                delta > 0,", "                delta > 1e-6,",
     "exposures shorter than 1e-6 in the caller's units",
     "very short exposures are observed as instantaneous although the process varies within them",
     '''
t = np.array([0., 4e-7, 1e-6]); d = np.array([5e-7, 2e-7, 8e-7]); y = np.array([.7, -.4, .3])
g = exp_gram(1.1, 3e-7, spans(t, d), spans(t, d))
C = g + .05 * np.eye(3)
X = (jnp.array(t), jnp.array(d), jnp.array([0, 1, 0]))
gp = GaussianProcess(I.IntegratedExp(scale=3e-7, sigma=1.1, num_insts=2), X, diag=jnp.full(3, .05))
close(gp.log_probability(jnp.array(y)), logprob(C, y), 1e-6)
''')

seed("ends-order-noise", "C07", "solvers/integrated/parallel/kalman.py",
     "    Rm = jnp.take(R, obsidx_in_ends_order)", "    Rm = R",
     "different noise per datum and exposures that do not end in the order they are listed",
     "the parallel integrated log-probability pairs innovations with other data's noise",
     '''
from smolgp.solvers.integrated import IntegratedStateSpaceSolver, ParallelIntegratedStateSpaceSolver
X = (jnp.array([2., .3, 1.1]), jnp.array([.4, .5, .6]), jnp.array([0, 0, 0]))
y = jnp.array([.4, -.2, .9]); R = jnp.array([.01, .5, .09])
k = I.IntegratedExp(scale=.7, sigma=1.3)
a = GaussianProcess(k, X, diag=R, solver=IntegratedStateSpaceSolver).log_probability(y)
b = GaussianProcess(k, X, diag=R, solver=ParallelIntegratedStateSpaceSolver).log_probability(y)
close(b, a)
''')

seed("first-instrument", "C07", "solvers/integrated/parallel/kalman.py",
     "        RESET(instid[0]),", "        RESET(0),",
     "several instruments, the first exposure being taken by any but the first of them",
     "the first exposure's integral is not reset in the parallel integrated solver",
     '''
from smolgp.solvers.integrated import IntegratedStateSpaceSolver, ParallelIntegratedStateSpaceSolver
X = (jnp.array([.3, 1.1, 1.4]), jnp.array([.4, .5, .6]), jnp.array([1, 0, 1]))
y = jnp.array([.4, -.2, .9]); R = jnp.array([.01, .5, .09])
k = I.IntegratedExp(scale=.7, sigma=1.3, num_insts=2)
a = GaussianProcess(k, X, diag=R, solver=IntegratedStateSpaceSolver).condition(y)
b = GaussianProcess(k, X, diag=R, solver=ParallelIntegratedStateSpaceSolver).condition(y)
close(b.log_probability, a.log_probability); close(b.gp.loc, a.gp.loc); close(b.gp.variance, a.gp.variance)
''')

seed("matern-density", "C09", "kernels/base.py",
     "            * jnp.square(factorial(d - 1))\n            / factorial(2 * d - 2)\n",
     "            / factorial(d)\n",
     "a generic Matern kernel of smoothness 7/2 or higher, and a quantity that uses its noise density",
     "the white-noise density is wrong for nu >= 7/2 (the shortcut holds for nu = 1/2, 3/2, 5/2)",
     '''
for nu in (.5, 1.5, 2.5, 3.5):
    k = K.Matern(nu=nu, scale=.8, sigma=1.3)
    F, L, Q, P = (np.asarray(a, float) for a in (k.design_matrix(), k.noise_effect_matrix(), k.noise(), k.stationary_covariance()))
    close(F @ P + P @ F.T + L @ Q @ L.T + np.eye(len(F)), np.eye(len(F)), 1e-9, nu)
''')

seed("near-critical", "C08", "kernels/base.py",
     "            jnp.allclose(q, 0.5),\n            critical,\n            lambda dt: jax.lax.cond(q > 0.5, underdamped, overdamped, dt),",
     "            jnp.allclose(q, 0.5, atol=2e-3),\n            critical,\n            lambda dt: jax.lax.cond(q > 0.5, underdamped, overdamped, dt),",
     "a damped oscillator whose quality factor is within 2e-3 of 1/2, without being 1/2",
     "nearly critical oscillators are silently replaced by the critical one",
     '''
for q in (.5015, .4985, .7, .2):
    w, s = 1.7, 1.2
    k = K.SHO(omega=w, quality=q, sigma=s)
    d = np.array([0., .1, 1., 3., 6.])
    e = np.sqrt(complex(1 / (4 * q * q) - 1))
    ref = (s**2 * np.exp(-w * d / 2 / q) * (np.cosh(e * w * d) + np.sinh(e * w * d) / (2 * e * q))).real
    close([k.evaluate(jnp.array(0.), jnp.array(x)) for x in d], ref, 1e-9, q)
''', count=2)

seed("kron-order", "C10", "kernels/base.py",
     "B = jnp.kron(B1, Pinf2) + jnp.kron(Pinf1, B2)",
     "B = jnp.kron(Pinf2, B1) + jnp.kron(B2, Pinf1)",
     "a product of two different kernels, and a quantity that uses its noise density (spectrum, Van Loan route)",
     "the noise density of a product has its factors in the wrong order",
     '''
for a, b in ((K.Exp(scale=.7), K.Exp(scale=2.)), (K.Matern32(scale=.7), K.SHO(omega=1.1, quality=2.)),
             (K.Matern32(scale=.7), K.Exp(scale=1.5))):
    k = a * b
    F, L, Q, P = (np.asarray(z, float) for z in (k.design_matrix(), k.noise_effect_matrix(), k.noise(), k.stationary_covariance()))
    close(F @ P + P @ F.T + L @ Q @ L.T + np.eye(len(F)), np.eye(len(F)), 1e-9)
''')

seed("group-variance", "C12", "gp.py",
     "        ## Project at data\n        component_mean, component_var = self.states.project_at_data(H_comp)\n",
     "        ## Project at data\n        component_mean, _ = self.states.project_at_data(H_comp)\n"
     "        component_var = sum(\n"
     "            self.states.project_at_data(\n"
     "                lambda X, name=name: self.kernel.observation_model(X, component=name)\n"
     "            )[1]\n"
     "            for name in component\n"
     "        )\n",
     "the variance of a group of two or more components",
     "the group's variance ignores the posterior covariance between its components",
     '''
t = np.array([0., .5, 1.2, 2.]); y = np.array([1., -.3, .8, .1])
ka, kb, kc = exp_k(1.2, .9), exp_k(.8, 3.), m32_k(1., .6)
gp = GaussianProcess(K.Exp(scale=.9, sigma=1.2, name="a") + K.Exp(scale=3., sigma=.8, name="b")
                     + K.Matern32(scale=.6, sigma=1., name="c"), jnp.array(t), diag=jnp.full(4, .1))
_, cond = gp.condition(jnp.array(y))
C = gram(ka, t, t) + gram(kb, t, t) + gram(kc, t, t) + .1 * np.eye(4)
for names, g in ((["a"], gram(ka, t, t)), (["a", "b"], gram(ka, t, t) + gram(kb, t, t))):
    mu, var = cond.get_component_mean(names, return_var=True)
    m, v = posterior(C, g, np.diag(g), y)
    close(mu, m); close(var, v)
''')

seed("name-prefix", "C12", "kernels/base.py",
     "keep = (component is None) or (self.name == component)",
     "keep = (component is None) or self.name.startswith(component)",
     "two components of which one's name begins with the other's",
     "extracting a component also includes every component whose name begins with its name",
     '''
t = np.array([0., .5, 1.2, 2.]); y = np.array([1., -.3, .8, .1])
gp = GaussianProcess(K.Matern32(scale=.9, sigma=1.2, name="Matern") + K.Exp(scale=3., sigma=.8, name="Matern12"),
                     jnp.array(t), diag=jnp.full(4, .1))
_, cond = gp.condition(jnp.array(y))
ka, kb = m32_k(1.2, .9), exp_k(.8, 3.)
C = gram(ka, t, t) + gram(kb, t, t) + .1 * np.eye(4)
for n, k in (("Matern", ka), ("Matern12", kb)):
    m, v = posterior(C, gram(k, t, t), np.full(4, k(0.)), y)
    mu, var = cond.get_component_mean(n, return_var=True)
    close(mu, m); close(var, v)
''')

seed("bessel-terms", "C13", "kernels/base.py",
     "def Ij(self, j, x, terms=50) -> JAXArray:",
     "def Ij(self, j, x, terms=20) -> JAXArray:",
     "a strongly non-sinusoidal periodic kernel (Gamma above 25 or so)",
     "the series coefficients are truncated and no longer the documented Bessel functions",
     '''
from math import fsum, lgamma, exp, log
def Iscaled(j, x):
    return fsum(exp((2 * k + j) * log(x / 2) - lgamma(k + 1) - lgamma(k + j + 1) - x) for k in range(400))
for G in (1., 8., 30., 60.):
    k = K.ExpSineSquared(period=1.7, gamma=G, order=20)
    P = np.diag(np.asarray(k.stationary_covariance()))[::2]
    close(P, [(1 if j == 0 else 2) * Iscaled(j, G / 2) for j in range(20)], 1e-7, G)
''')

