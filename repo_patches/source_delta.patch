From da802c4667890e22113bde16ebbac7783417211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 01/21] fix: scaling a kernel by a number (missing name,
 unscaled process noise)

---
 src/smolgp/kernels/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5bef960..9d04a19 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -478,10 +478,22 @@ class Scale(Wrapper):
 
     scale: JAXArray | float
 
+    def __init__(
+        self,
+        kernel: StateSpaceModel,
+        scale: JAXArray | float,
+        name: str | None = None,
+    ):
+        self.kernel = kernel
+        self.scale = scale
+        self.name = f"Scale({kernel.name})" if name is None else name
+
     def stationary_covariance(self) -> JAXArray:
         return self.scale * self.kernel.stationary_covariance()
 
-    # TODO: also scale Qc?
+    def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        return self.scale * self.kernel.process_noise(X1, X2)
+
     def noise(self) -> JAXArray:
         return self.scale * self.kernel.noise()
 
-- 
2.43.0


From 4980ccee9fc55cf118cba4b3148a0f5e8251136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 02/21] fix: Constant.transition_matrix used a nonexistent
 attribute

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 9d04a19..2289cfa 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -559,7 +559,7 @@ class Constant(StateSpaceModel):
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for a Constant process"""
         del X1, X2
-        return self.eye(self.dimension)
+        return jnp.eye(self.dimension)
 
     def process_noise(self, X1, X2, use_van_loan=False):
         """The process noise Q_k for a Constant process"""
-- 
2.43.0


From f159a6a10dd7f0463f3cbc69adcc98e122fb6d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 03/21] fix: Exp.transition_matrix crashed for plain Python
 numbers

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 2289cfa..55f40c5 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -801,7 +801,7 @@ class Exp(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return jnp.exp(-dt[None, None] / self.scale)
+        return jnp.array([[jnp.exp(-dt / self.scale)]])
 
     def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The process noise Q_k for the Exp process"""
-- 
2.43.0


From 6aa4744565074086e976f587058434781d00f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 04/21] fix: evaluate_diag returned a matrix instead of a
 scalar variance

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 55f40c5..b4cd581 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -226,7 +226,7 @@ class StateSpaceModel(Kernel):
     def evaluate_diag(self, X: JAXArray) -> JAXArray:
         """For state space kernels, the variance is simple to compute"""
         h = self.observation_model(X)
-        return h @ self.stationary_covariance() @ h.T
+        return (h @ self.stationary_covariance() @ h.T).squeeze()
 
     def psd(self, omega: JAXArray) -> JAXArray:
         """
-- 
2.43.0


From 1711606e14c31fe63d90a4ca35310927addbd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 05/21] fix: evaluate paired the observation models with the
 wrong coordinates for X1 < X2

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index b4cd581..b7708fd 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -219,7 +219,7 @@ class StateSpaceModel(Kernel):
         h2 = self.observation_model(X2)
         return jnp.where(
             self.coord_to_sortable(X1) < self.coord_to_sortable(X2),
-            (h2 @ Pinf @ self.transition_matrix(X1, X2).T @ h1.T).squeeze(),
+            (h1 @ Pinf @ self.transition_matrix(X1, X2).T @ h2.T).squeeze(),
             (h1 @ self.transition_matrix(X2, X1) @ Pinf @ h2.T).squeeze(),
         )
 
-- 
2.43.0


From de5131548c9fd3cf9a87e302795134ad850762b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 06/21] fix: SHO process noise was zeroed below an absolute
 threshold, breaking small amplitudes/frequencies

---
 src/smolgp/kernels/base.py       | 4 +++-
 src/smolgp/kernels/integrated.py | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index b7708fd..f28114c 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -712,8 +712,10 @@ class SHO(StateSpaceModel):
             Q12 = Q21 = exp * (w * sinsq / (n2 * q))
             Q22 = w2 * (-expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2)))
             Q = jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
+            # threshold relative to the stationary scale of each element
+            scale = jnp.square(self.sigma) * jnp.array([[1, w], [w, w2]])
             return jnp.where(
-                jnp.abs(Q) < 1e-14, jnp.zeros_like(Q), Q
+                jnp.abs(Q) < 1e-14 * scale, jnp.zeros_like(Q), Q
             )  # prevent underflows
 
         def overdamped(dt: JAXArray) -> JAXArray:
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index ef07155..c7eb3f3 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -403,9 +403,11 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
             Qaug12 = sigma2 * jnp.array([[iQ12_1], [iQ12_2]])
             Qaug22 = sigma2 * jnp.array([[iQ22]])
-            # Prevent underflows
-            Qaug12 = jnp.where(jnp.abs(Qaug12) < 1e-14, jnp.zeros_like(Qaug12), Qaug12)
-            Qaug22 = jnp.where(jnp.abs(Qaug22) < 1e-14, jnp.zeros_like(Qaug22), Qaug22)
+            # Prevent underflows (relative to the natural scale of each element)
+            tol12 = 1e-14 * sigma2 * jnp.array([[1 / w], [1.0]])
+            tol22 = 1e-14 * sigma2 / w2
+            Qaug12 = jnp.where(jnp.abs(Qaug12) < tol12, jnp.zeros_like(Qaug12), Qaug12)
+            Qaug22 = jnp.where(jnp.abs(Qaug22) < tol22, jnp.zeros_like(Qaug22), Qaug22)
             Qaug21 = Qaug12.T
             return Qaug12, Qaug21, Qaug22
 
-- 
2.43.0


From 269c5e913be70410f20099ffbfc2d5c879a65333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 07/21] fix: ExpSineSquared.error_bound was not an upper bound
 on the error

---
 src/smolgp/kernels/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index f28114c..1881ea1 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1185,12 +1185,15 @@ class ExpSineSquared(Wrapper):
     def error_bound(self):
         """
         An upper bound on the error in the covariance
-        from the Taylor series approximation.
+        from the truncated series approximation.
 
         See Sec 3.4 of Solin & Särkkä (2014).
         """
-        J = self.order
-        return jnp.exp(1 - self.scale) / jax.scipy.special.factorial(J + 1)
+        # All series coefficients are positive and sum to sigma^2,
+        # so the error is largest at zero lag, where it is the truncated tail.
+        H = self.observation_matrix(0.0)
+        truncated = (H @ self.stationary_covariance() @ H.T).squeeze()
+        return jnp.maximum(jnp.square(self.sigma) - truncated, 0.0)
 
     def stationary_covariance(self) -> JAXArray:
         return jnp.square(self.sigma) * self.kernel.stationary_covariance()
-- 
2.43.0


From 3de3e2b5c9f94652c42e1fa5e26b139f50dad051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 08/21] fix: ParallelStateSpaceSolver.condition crashed with
 return_v_S=False

---
 src/smolgp/solvers/parallel/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 26e421d..8750232 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -63,7 +63,7 @@ class ParallelStateSpaceSolver(eqx.Module):
         """
 
         # Kalman filtering
-        kalman_results = self.Kalman(y, return_v_S=True)
+        kalman_results = self.Kalman(y, return_v_S=return_v_S)
         if return_v_S:
             m_filtered, P_filtered, m_predicted, P_predicted, v, S = kalman_results
             v_S = (v, S)
-- 
2.43.0


From bfc56860af012fee4675d58475fc698eaa4c7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 09/21] fix: parallel Kalman filter crashed for one-dimensional
 state space models

---
 src/smolgp/solvers/parallel/kalman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 99c77c4..a33ccf1 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -65,11 +65,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (P @ H0.T).T).T
 
         A = jnp.zeros_like(Phi0)
-        b = jnp.squeeze(m + K @ (y0 - H0 @ m))
+        b = m + K @ (y0 - H0 @ m)
         C = P - K @ S @ K.T
 
         _M = Phi0.T @ H0.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y0)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y0))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
@@ -92,11 +92,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (Q_dt @ Hk.T).T).T
 
         A = (I - K @ Hk) @ Phi_dt
-        b = jnp.squeeze(K @ jnp.atleast_1d(y))  # remove atleast_1d?
+        b = K @ jnp.atleast_1d(y)  # remove atleast_1d?
         C = (I - K @ Hk) @ Q_dt
 
         _M = Phi_dt.T @ Hk.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
-- 
2.43.0


From cadf0fe1107c4e5e0180fd5916d6dcbedc563b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 10/21] fix: a product kernel could not be extracted as a
 component of a sum

---
 src/smolgp/kernels/base.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 1881ea1..cd2396d 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -345,10 +345,12 @@ class Product(StateSpaceModel):
     kernel1: StateSpaceModel
     kernel2: StateSpaceModel
 
-    def __init__(self, kernel1, kernel2):
+    def __init__(self, kernel1, kernel2, name=None):
         self.kernel1 = kernel1
         self.kernel2 = kernel2
-        self.name = f"Product({kernel1.name}, {kernel2.name})"
+        self.name = (
+            f"Product({kernel1.name}, {kernel2.name})" if name is None else name
+        )
 
     @property
     def dimension(self) -> int:
@@ -399,12 +401,6 @@ class Product(StateSpaceModel):
         Pinf2 = self.kernel2.stationary_covariance()
         return jnp.kron(Pinf1, Q2) + jnp.kron(Q1, Pinf2) - jnp.kron(Q1, Q2)
 
-    def observation_model(self, X: JAXArray, component=None) -> JAXArray:
-        """H = H1 ⊗ H2 with component extraction"""
-        H1 = self.kernel1.observation_model(X, component=component)
-        H2 = self.kernel2.observation_model(X, component=component)
-        return jnp.kron(H1, H2)
-
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """H = H1 ⊗ H2"""
         H1 = self.kernel1.observation_matrix(X)
-- 
2.43.0


From bdb7ca3d8263c89d5e67839f0bfc8e2d18441dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 11/21] fix: assigning unique component names failed for
 products and could collide

---
 src/smolgp/gp.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 829b294..e6901de 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -48,21 +48,20 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
         counts[k.name] = counts.get(k.name, 0) + 1
     # counter for how many times we've used each duplicated name
     used = {name: 1 for name, c in counts.items() if c > 1}
+    taken = set(names)
 
     def _rename(k: StateSpaceModel) -> StateSpaceModel:
         if isinstance(k, Sum):
             k1 = _rename(k.kernel1)
             k2 = _rename(k.kernel2)
             return Sum(k1, k2)
-        if isinstance(k, Product):
-            k1 = _rename(k.kernel1)
-            k2 = _rename(k.kernel2)
-            return Product(k1, k2)
-        # Leaf
+        # Leaf (products are a single component of the sum)
         if counts[k.name] > 1:
-            idx = used[k.name]
-            used[k.name] += 1
-            newname = f"{k.name}_{idx}"
+            # skip any suffixed name that is already in use
+            while f"{k.name}_{used[k.name]}" in taken:
+                used[k.name] += 1
+            newname = f"{k.name}_{used[k.name]}"
+            taken.add(newname)
             return dataclasses.replace(k, name=newname)
         else:
             # Single occurrence: leave unchanged
-- 
2.43.0


From be39029472d391505255c1e6b8a012c5d778de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 12/21] fix: GaussianProcess.condition crashed when given
 X_test

---
 src/smolgp/gp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index e6901de..d90d117 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -552,7 +552,11 @@ class GaussianProcess(eqx.Module):
 
         if X_test is not None:
             # If X_test was given, also predit at those points
-            mu, var = self.solver.predict(X_test, conditioned_results)
+            # (projected to observation space)
+            m_test, P_test = self.solver.predict(X_test, states())
+            H_test = jax.vmap(observation_model)(X_test)
+            mu = jax.vmap(lambda H, m: H @ m)(H_test, m_test)[:, 0]
+            var = jax.vmap(lambda H, P: H @ P @ H.T)(H_test, P_test)[:, 0, 0]
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-- 
2.43.0


From a3eaf987fbaf658783d66c4ba6b843d43f3e33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 13/21] fix: results for a single data or test point lost their
 leading dimension

---
 src/smolgp/gp.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index d90d117..8dd1453 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -152,7 +152,7 @@ class ConditionedStates(eqx.Module):
         m_sel = jnp.take(self.smoothed_mean, idx, axis=0)
         P_sel = jnp.take(self.smoothed_cov, idx, axis=0)
         mu, var = jax.vmap(project)(self.X, m_sel, P_sel)
-        return mu.squeeze(), var.squeeze()
+        return mu[:, 0], var[:, 0, 0]
 
 
 class PredictedStates(eqx.Module):
@@ -192,7 +192,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         mu = jax.vmap(_project)(H, self.mean)
-        return mu.squeeze()
+        return mu[:, 0]
 
     def project_variance(self, observation_model) -> JAXArray:
         """
@@ -205,7 +205,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         var = jax.vmap(_project)(H, self.cov)
-        return var.squeeze()
+        return var[:, 0, 0]
 
     @property
     def loc(self) -> JAXArray:
@@ -680,10 +680,10 @@ class GaussianProcess(eqx.Module):
                             X, component=name
                         )
                     H = jax.vmap(H_test)(X_test)
-                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean).squeeze()
-                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(
-                        H, variance
-                    ).squeeze()
+                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean)[:, 0]
+                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, variance)[
+                        :, 0, 0
+                    ]
 
         if return_var:
             return mu, var
-- 
2.43.0


From 8760818ab559a8953ef6eaeee2d1c39067e67a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 14/21] fix: a scaled integrated kernel was given the
 instantaneous solver

---
 src/smolgp/gp.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 8dd1453..0712dd2 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -17,7 +17,7 @@ from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
 from smolgp.kernels import StateSpaceModel, Sum, Product
-from smolgp.kernels.base import extract_leaf_kernels
+from smolgp.kernels.base import extract_leaf_kernels, Wrapper
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
 from smolgp.solvers import StateSpaceSolver
@@ -326,7 +326,9 @@ class GaussianProcess(eqx.Module):
 
         # Check if the kernel contains any integrated components
         kernels = extract_leaf_kernels(self.kernel)
-        is_integrated = any([isinstance(k, IntegratedStateSpaceModel) for k in kernels])
+        is_integrated = any(
+            [isinstance(_unwrap(k), IntegratedStateSpaceModel) for k in kernels]
+        )
         is_instantaneous = all([isinstance(k, StateSpaceModel) for k in kernels])
 
         # If using an integrated solver, ensure X has both coords and bin sizes
@@ -879,6 +881,13 @@ class ConditionResult(NamedTuple):
     """
 
 
+def _unwrap(kernel: StateSpaceModel) -> StateSpaceModel:
+    """Strip any wrappers (e.g. a scalar amplitude) from a kernel"""
+    while isinstance(kernel, Wrapper):
+        kernel = kernel.kernel
+    return kernel
+
+
 def _default_diag(reference: JAXArray) -> JAXArray:
     """Default to adding some amount of jitter to the diagonal, just in case,
     we use sqrt(eps) for the dtype of the mean function because that seems to
-- 
2.43.0


From f1bca06eeeea6fe47731658423c43c84663871bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 15/21] fix: parallel integrated filter ignored a zero-length
 first exposure

---
 .../solvers/integrated/parallel/kalman.py      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 2222c9b..c3af3e0 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -117,14 +117,22 @@ def make_associative_params(
     ):
         Phi0 = Phi_aug(0, 0)
 
-        transition = Reset @ Phi0
+        m_pred = Phi0 @ m0
+        P_pred = Phi0 @ P0 @ Phi0.T  # Q(0,0) = 0
 
-        m = transition @ m0
-        P = transition @ P0 @ transition.T  # Q(0,0) = 0
+        def first_is_start():
+            return Reset @ m_pred, Reset @ P_pred @ Reset.T
+
+        def first_is_end():
+            # a zero-length exposure: its end is sorted before its start
+            n = obsid[0]
+            H0 = H_array[n]
+            S = H0 @ P_pred @ H0.T + R[n]
+            K = jnp.linalg.solve(S.T, (P_pred @ H0.T).T).T
+            return m_pred + K @ (y[n] - H0 @ m_pred), P_pred - K @ S @ K.T
 
         A = Reset
-        b = jnp.squeeze(m)
-        C = P
+        b, C = jax.lax.cond(stateid[0] == 0, first_is_start, first_is_end)
 
         eta = jnp.zeros(state_dim)
         J = jnp.zeros_like(Phi0)
-- 
2.43.0


From 5fd71e935b453ce2d60a56a9ffd7d529b9a36aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 16/21] fix: the generic half-integer Matern kernel could not
 be used in a GP

---
 src/smolgp/kernels/base.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index cd2396d..7f4d4a8 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1302,7 +1302,7 @@ class Matern(StateSpaceModel):
         sigma (optional): The parameter :math:`\sigma`. Defaults to a value of 1.
     """
 
-    nu: JAXArray | float
+    nu: float = eqx.field(static=True)
     scale: JAXArray | float
     sigma: JAXArray | float
     lam: JAXArray | float
@@ -1312,16 +1312,17 @@ class Matern(StateSpaceModel):
         nu: JAXArray | float,
         scale: JAXArray | float,
         sigma: JAXArray | float = jnp.ones(()),
-        name: str = "Matern",
+        name: str | None = None,
         **kwargs,
     ):
-        assert jnp.isclose(nu % 1, 0.5), (
+        nu = float(nu)  # fixes the dimension, so it must be static
+        assert abs(nu % 1 - 0.5) < 1e-5, (
             "nu must be a half-integer (e.g., 1/2, 3/2, 5/2, etc.)"
         )
         self.nu = nu
         self.scale = scale
         self.sigma = sigma
-        self.name = f"Matern{self.nu * 2:.0f}{2}"
+        self.name = f"Matern{self.nu * 2:.0f}{2}" if name is None else name
         self.lam = jnp.sqrt(2 * self.nu) / self.scale
 
     @property
@@ -1365,19 +1366,16 @@ class Matern(StateSpaceModel):
         return jnp.array([[q]])
 
     def stationary_covariance(self) -> JAXArray:
-        """The stationary covariance of the Matern-5/2 process, Pinf"""
-        from scipy.linalg import solve_continuous_lyapunov
-
-        # TODO: find a JAX version of solve_continuous_lyapunov
-        # or figure out the general form for Pinf analytically
-        print(
-            "Warning: there does not seem to be a JAX implementation "
-            "of solve_continuous_lyapunov, so we use the scipy version here "
-            "for now. This means that this method will not be JIT-compilable."
-        )
-
-        F = self.design_matrix()
-        L = self.noise_effect_matrix()
-        Qc = self.noise()
-        LQL = L @ Qc @ L.T
-        return jnp.array(solve_continuous_lyapunov(F, -LQL))
+        """The stationary covariance of the Matern process, Pinf"""
+        # Spectral moments of the Matern kernel: the covariance between the
+        # i-th and j-th derivatives is (-1)^((i-j)/2) m_(i+j) if i+j is even
+        d = self.dimension
+        Pinf = jnp.zeros((d, d))
+        for i in range(d):
+            for j in range(i % 2, d, 2):
+                n = (i + j) // 2
+                moment = (-1.0) ** ((i - j) // 2)
+                for k in range(n):
+                    moment *= (k + 0.5) / (d - n - 0.5 + k)
+                Pinf = Pinf.at[i, j].set(moment * jnp.power(self.lam, i + j))
+        return jnp.square(self.sigma) * Pinf
-- 
2.43.0


From 5fd37febf72f50d5246462f361b0a829b7349d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 17/21] fix: overdamped SHO overflowed to NaN for large time
 lags

---
 src/smolgp/kernels/base.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 7f4d4a8..3ad1cc2 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -660,9 +660,11 @@ class SHO(StateSpaceModel):
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
             x = n * w * dt
-            sinh = jnp.sinh(x)
-            cosh = jnp.cosh(x)
-            return jnp.exp(-0.5 * w * dt / q) * jnp.array(
+            # fold the decay into sinh and cosh, which overflow for large x
+            decay = jnp.exp(x - 0.5 * w * dt / q)
+            sinh = -0.5 * decay * jnp.expm1(-2 * x)
+            cosh = 0.5 * decay * (1 + jnp.exp(-2 * x))
+            return jnp.array(
                 [[cosh + sinh / f, sinh / (w * n)], [-w * sinh / n, cosh - sinh / f]]
             )
 
@@ -721,14 +723,14 @@ class SHO(StateSpaceModel):
             w2 = jnp.square(w)
             a = w * dt / q  # argument in exponential
             x = n * w * dt  # argument in sin/cos
-            sinh = jnp.sinh(x)
-            sinh2 = jnp.sinh(2 * x)
-            sinhsq = jnp.square(sinh)
-            exp = jnp.exp(-a)
+            # fold the decay into the sinh terms, which overflow for large x
+            decay = jnp.exp(x - 0.5 * a)
+            sinh2 = -0.5 * jnp.square(decay) * jnp.expm1(-4 * x)
+            sinhsq = jnp.square(0.5 * decay * jnp.expm1(-2 * x))
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
-            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2)) * exp
-            Q12 = Q21 = exp * (w * sinhsq / (n2 * q))
-            Q22 = w2 * (-expm1 + exp * (sinh2 / f - sinhsq / (2 * n2 * q2)))
+            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2))
+            Q12 = Q21 = w * sinhsq / (n2 * q)
+            Q22 = w2 * (-expm1 + sinh2 / f - sinhsq / (2 * n2 * q2))
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         return jax.lax.cond(
-- 
2.43.0


From d4a5d53896392aa1d438884b1ffe81b865ec7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 18/21] fix: augmented process noise was inaccurate or NaN for
 large time lags

---
 src/smolgp/kernels/integrated.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index c7eb3f3..4ee85ab 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -176,7 +176,8 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         Computes the submatrices Qaug12, Qaug21, and Qaug22
         needed to assemble the augmented process noise matrix.
 
-        By default uses the Van Loan method to compute these submatrices.
+        By default uses the Van Loan method to compute these submatrices, or
+        stationarity for large steps (Van Loan involves the growing exp(-F dt)).
         Overload this method if you wish to define these submatrices analytically.
         """
 
@@ -187,7 +188,10 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         L = self.base_model.noise_effect_matrix()
         Qc = self.base_model.noise()
 
-        vanloan = smolgp.helpers.VanLoan(F, L, Qc, dt)
+        # -tr(F) is the sum of the decay rates of the process
+        is_large = -jnp.trace(F) * dt > 1.0
+
+        vanloan = smolgp.helpers.VanLoan(F, L, Qc, jnp.where(is_large, 0.0, dt))
         F3 = vanloan["F3"]
         H2 = vanloan["H2"]
         K1 = vanloan["K1"]
@@ -196,9 +200,20 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         F3TK1 = F3.T @ K1
         W = F3TK1 + F3TK1.T
 
-        Qaug12 = M[:, :1]
+        # Cov[x, z] and Var[z] of the stationary process, minus the part
+        # due to the state at the start of the step
+        I = jnp.eye(len(F))
+        Fsafe = jnp.where(is_large, F, I)
+        Pinf = self.base_model.stationary_covariance()
+        A = self.base_model.transition_matrix(0, dt)
+        Phibar = jnp.linalg.solve(Fsafe, A - I)
+        Phibarbar = jnp.linalg.solve(Fsafe, Phibar - I * dt)
+        Cxz = Phibar @ Pinf[:, :1] - A @ Pinf @ Phibar[:1, :].T
+        Vz = 2 * Phibarbar[:1, :] @ Pinf[:, :1] - Phibar[:1] @ Pinf @ Phibar[:1].T
+
+        Qaug12 = jnp.where(is_large, Cxz, M[:, :1])
         Qaug21 = Qaug12.T
-        Qaug22 = W[:1, :1]
+        Qaug22 = jnp.where(is_large, Vz, W[:1, :1])
         return Qaug12, Qaug21, Qaug22
 
     # @partial(
-- 
2.43.0


From 5eb2cecb791ab85a6ac585cee1d3c25279a455c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 19/21] fix: the generic Matern transition matrix was NaN for
 short length scales

---
 src/smolgp/kernels/base.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 3ad1cc2..1904182 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1367,6 +1367,21 @@ class Matern(StateSpaceModel):
         )
         return jnp.array([[q]])
 
+    def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        """The transition matrix A_k for the Matern process"""
+        t1 = self.coord_to_sortable(X1)
+        t2 = self.coord_to_sortable(X2)
+        dt = t2 - t1
+        # -lam is the only eigenvalue of F, so N = (F + lam*I)*dt is nilpotent
+        # and its exponential is a finite sum
+        d = self.dimension
+        N = (self.design_matrix() + self.lam * jnp.eye(d)) * dt
+        A = term = jnp.eye(d)
+        for k in range(1, d):
+            term = term @ N / k
+            A = A + term
+        return jnp.exp(-self.lam * dt) * A
+
     def stationary_covariance(self) -> JAXArray:
         """The stationary covariance of the Matern process, Pinf"""
         # Spectral moments of the Matern kernel: the covariance between the
-- 
2.43.0


From 2c9534798955000a467eed5f9b4d75aaddd4159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 20/21] fix: Van Loan matrix exponentials were NaN or
 inaccurate for short scales, large amplitudes or large lags

---
 src/smolgp/helpers.py            | 27 ++++++++++--------
 src/smolgp/kernels/base.py       |  6 +++-
 src/smolgp/kernels/integrated.py | 48 ++++++++++++++++++++++----------
 3 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 06631c4..5806a9b 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -56,9 +56,10 @@ def Phibar_from_VanLoan(F: JAXArray, dt: JAXArray) -> JAXArray:
     b = len(F)  # block size
     Z = jnp.zeros((b, b))
     I = jnp.eye(b)
-    C = jnp.block([[F, I], [Z, Z]])
-    VanLoanBlock = expm(C * dt)
-    G3 = VanLoanBlock[:b, b:]
+    # integrate in units of dt, so that the blocks do not depend on the unit of time
+    C = jnp.block([[F * dt, I], [Z, Z]])
+    VanLoanBlock = expm(C)
+    G3 = VanLoanBlock[:b, b:] * dt
     return G3
 
 
@@ -86,25 +87,27 @@ def VanLoan(
     b = len(F)  # block size
     I = jnp.eye(b)
     Z = jnp.zeros_like(F)
+    # integrate in units of dt, so that the blocks do not depend on the unit of time
+    Fdt = F * dt
     C = jnp.block(
         [
-            [-F, I, Z, Z],
-            [Z, -F, QL, Z],
-            [Z, Z, F.T, I],
+            [-Fdt, I, Z, Z],
+            [Z, -Fdt, QL * dt, Z],
+            [Z, Z, Fdt.T, I],
             [Z, Z, Z, Z],
         ]
     )
-    VanLoanBlock = block_view(expm(C * dt), b)
+    VanLoanBlock = block_view(expm(C), b)
 
     F1 = VanLoanBlock[0, 0]
-    G1 = VanLoanBlock[0, 1]
-    H1 = VanLoanBlock[0, 2]
-    K1 = VanLoanBlock[0, 3]
+    G1 = VanLoanBlock[0, 1] * dt
+    H1 = VanLoanBlock[0, 2] * dt
+    K1 = VanLoanBlock[0, 3] * dt**2
     F2 = VanLoanBlock[1, 1]
     G2 = VanLoanBlock[1, 2]
-    H2 = VanLoanBlock[1, 3]
+    H2 = VanLoanBlock[1, 3] * dt
     F3 = VanLoanBlock[2, 2]
-    G3 = VanLoanBlock[2, 3]
+    G3 = VanLoanBlock[2, 3] * dt
     F4 = VanLoanBlock[3, 3]
 
     return {
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 1904182..6a2dee1 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -155,7 +155,11 @@ class StateSpaceModel(Kernel):
             F = self.design_matrix()
             L = self.noise_effect_matrix()
             Qc = self.noise()
-            return Q_from_VanLoan(F, L, Qc, dt)
+            # scale the states to unit variance; the matrix exponential is
+            # NaN if the matrix elements have very different magnitudes
+            scale = jnp.sqrt(jnp.diag(self.stationary_covariance()))
+            S = scale[:, None]
+            return S * scale * Q_from_VanLoan(F * scale / S, L / S, Qc, dt)
         else:
             # See Eq. 7 in Solin & Sarkka 2014
             # https://users.aalto.fi/~ssarkka/pub/solin_mlsp_2014.pdf
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 4ee85ab..fe60caf 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -151,11 +151,36 @@ class IntegratedStateSpaceModel(StateSpaceModel):
 
         Overload this method if you wish to define the integrated transition matrix analytically.
         """
-        F = self.base_model.design_matrix()
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return Phibar_from_VanLoan(F, dt)
+        F, _, _, scale = self._normalized_base_model()
+        is_large = jnp.max(jnp.abs(F)) * dt > 1.0
+        I = jnp.eye(len(F))
+        A = self.base_model.transition_matrix(0, dt) * scale / scale[:, None]
+        Phibar = jnp.where(
+            is_large,
+            jnp.linalg.solve(jnp.where(is_large, F, I), A - I),
+            Phibar_from_VanLoan(F, jnp.where(is_large, 0.0, dt)),
+        )
+        return Phibar * scale[:, None] / scale
+
+    def _normalized_base_model(self):
+        """
+        F, L, and Pinf of the base model for states scaled to unit variance,
+        and those scales. The matrix exponentials are inaccurate or NaN if the
+        elements of the state have very different magnitudes.
+        """
+        F = self.base_model.design_matrix()
+        L = self.base_model.noise_effect_matrix()
+        Pinf = self.base_model.stationary_covariance()
+        scale = jnp.sqrt(jnp.diag(Pinf))
+        return (
+            F * scale / scale[:, None],
+            L / scale[:, None],
+            Pinf / scale / scale[:, None],
+            scale,
+        )
 
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -184,12 +209,10 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        F = self.base_model.design_matrix()
-        L = self.base_model.noise_effect_matrix()
+        F, L, Pinf, scale = self._normalized_base_model()
         Qc = self.base_model.noise()
 
-        # -tr(F) is the sum of the decay rates of the process
-        is_large = -jnp.trace(F) * dt > 1.0
+        is_large = jnp.max(jnp.abs(F)) * dt > 1.0
 
         vanloan = smolgp.helpers.VanLoan(F, L, Qc, jnp.where(is_large, 0.0, dt))
         F3 = vanloan["F3"]
@@ -204,16 +227,15 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         # due to the state at the start of the step
         I = jnp.eye(len(F))
         Fsafe = jnp.where(is_large, F, I)
-        Pinf = self.base_model.stationary_covariance()
-        A = self.base_model.transition_matrix(0, dt)
+        A = self.base_model.transition_matrix(0, dt) * scale / scale[:, None]
         Phibar = jnp.linalg.solve(Fsafe, A - I)
         Phibarbar = jnp.linalg.solve(Fsafe, Phibar - I * dt)
         Cxz = Phibar @ Pinf[:, :1] - A @ Pinf @ Phibar[:1, :].T
         Vz = 2 * Phibarbar[:1, :] @ Pinf[:, :1] - Phibar[:1] @ Pinf @ Phibar[:1].T
 
-        Qaug12 = jnp.where(is_large, Cxz, M[:, :1])
+        Qaug12 = jnp.where(is_large, Cxz, M[:, :1]) * scale[:, None] * scale[0]
         Qaug21 = Qaug12.T
-        Qaug22 = jnp.where(is_large, Vz, W[:1, :1])
+        Qaug22 = jnp.where(is_large, Vz, W[:1, :1]) * jnp.square(scale[0])
         return Qaug12, Qaug21, Qaug22
 
     # @partial(
@@ -322,8 +344,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(type(self), self).integrated_transition_matrix(t1, t2)
 
         def underdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## General integral from t1->t2:
@@ -358,8 +379,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(type(self), self).integrated_transition_matrix(t1, t2)
 
         # Return the appropriate form based on quality factor
         t1 = self.coord_to_sortable(X1)
-- 
2.43.0


From 3f4b5ab65514491de36c24052bf8459776a8a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 21/21] fix: smoothing started from the reset state when the
 last exposure has zero length

---
 src/smolgp/solvers/integrated/parallel/rts.py |  8 +++++++-
 src/smolgp/solvers/integrated/rts.py          | 14 +++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index ed66266..db84491 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -128,7 +128,13 @@ def make_associative_params(
         stateid[:-1],
     )
 
-    EN, gN, LN = make_last_params(m_filter[-1], P_filter[-1])
+    # Final filtered state, or the pre-reset state if it
+    # is an exposure-start (zero-length last exposure)
+    is_start = stateid[-1] == 0
+    EN, gN, LN = make_last_params(
+        jnp.where(is_start, m_pred[-1], m_filter[-1]),
+        jnp.where(is_start, P_pred[-1], P_filter[-1]),
+    )
 
     E_all = jnp.concatenate([E, EN[jnp.newaxis, ...]], axis=0)
     g_all = jnp.concatenate([g, gN[jnp.newaxis, ...]], axis=0)
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 2a98cc0..bdde4fe 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -93,15 +93,19 @@ def integrated_rts_smoother(
 
         return (m_hat_k, P_hat_k), (m_hat_k, P_hat_k)
 
-    # Start smoothing from final filtered state
-    init_carry = (m_filtered[-1], P_filtered[-1])
+    # Start smoothing from final filtered state, or the pre-reset
+    # state if it is an exposure-start (zero-length last exposure)
+    is_start = stateid[-1] == 0
+    m_last = jnp.where(is_start, m_predicted[-1], m_filtered[-1])
+    P_last = jnp.where(is_start, P_predicted[-1], P_filtered[-1])
+    init_carry = (m_last, P_last)
 
     # Run backward from N-2 down to 0
     K = len(t_states)  # number of iterations
     _, outputs = jax.lax.scan(step, init_carry, jnp.arange(K - 2, -1, -1))
     m_smooth_reversed, P_smooth_reversed = outputs
 
-    # Reverse outputs (with final filtered=smoothed state) to match time order
-    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_filtered[-1][None, :]])
-    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_filtered[-1][None, :, :]])
+    # Reverse outputs (with final smoothed state) to match time order
+    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_last[None, :]])
+    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_last[None, :, :]])
     return m_smooth, P_smooth
-- 
2.43.0

