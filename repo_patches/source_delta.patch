From 5a3259fe1d94f8a057497d0da2b137c100183337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:41 +0000
Subject: [PATCH 01/25] fix: projection_box accepts scalar bounds with pytree
 inputs, as documented

---
 jaxopt/_src/projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 9154b68..7c0fda4 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -69,6 +69,10 @@ def projection_box(x: Any, hyperparams: Tuple) -> Any:
     projected pytree, with the same structure as ``x``.
   """
   lower, upper = hyperparams
+  if jnp.isscalar(lower):
+    lower = tree_util.tree_map(lambda _: lower, x)
+  if jnp.isscalar(upper):
+    upper = tree_util.tree_map(lambda _: upper, x)
   return tree_util.tree_map(_clip_safe, x, lower, upper)
 
 
-- 
2.43.0


From 70c1aba013f6c1b95cdbdd14d47c5dd98dde7512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:41 +0000
Subject: [PATCH 02/25] fix: projection_l1_sphere keeps the mass assigned to
 zero coordinates

---
 jaxopt/_src/projection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 7c0fda4..78c8fba 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -226,7 +226,9 @@ def projection_l1_sphere(x: jnp.ndarray, value: float = 1.0) -> jnp.ndarray:
   Returns:
     output array, with the same shape as ``x``.
   """
-  return jnp.sign(x) * projection_simplex(jnp.abs(x), value)
+  # Not ``jnp.sign``, which would drop the mass put on zero coordinates.
+  signs = jnp.where(x >= 0, 1.0, -1.0)
+  return signs * projection_simplex(jnp.abs(x), value)
 
 
 def projection_l1_ball(x: jnp.ndarray, max_value: float = 1.0) -> jnp.ndarray:
-- 
2.43.0


From 551d0e8e0889712926f64d4c61f4478d3f4ca489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:26 +0000
Subject: [PATCH 03/25] fix: finite reverse-mode derivative of
 projection_l2_ball at the origin

---
 jaxopt/_src/projection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 78c8fba..b314067 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -287,12 +287,12 @@ def projection_l2_ball(x: Any, max_value: float = 1.0) -> Any:
   Returns:
     output pytree, with the same structure as ``x``.
   """
-  l2_norm = tree_util.tree_l2_norm(x)
-  factor = max_value / l2_norm
-  return jax.lax.cond(l2_norm <= max_value,
-                      lambda _: x,
-                      lambda _: tree_util.tree_scalar_mul(factor, x),
-                      operand=None)
+  sq_norm = tree_util.tree_l2_norm(x, squared=True)
+  inside = jnp.sqrt(sq_norm) <= max_value
+  # Inside the ball, keep the norm out of the graph: it has no gradient at zero.
+  l2_norm = jnp.sqrt(jnp.where(inside, 1.0, sq_norm))
+  factor = jnp.where(inside, 1.0, max_value / l2_norm)
+  return tree_util.tree_scalar_mul(factor, x)
 
 
 def projection_linf_ball(x: Any, max_value: float = 1.0) -> Any:
-- 
2.43.0


From 4828e2fca2cb8abdb08b330db6362e319e90b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:26 +0000
Subject: [PATCH 04/25] fix: finite reverse-mode derivative of prox_group_lasso
 at zero blocks

---
 jaxopt/_src/prox.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 56ed0ec..32cff03 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -160,8 +160,11 @@ def prox_group_lasso(x: Any,
   if l2reg is None:
     l2reg = 1.0
 
-  l2_norm = tree_util.tree_l2_norm(x)
-  factor = 1 - l2reg * scaling / l2_norm
+  sq_norm = tree_util.tree_l2_norm(x, squared=True)
+  is_zero = sq_norm == 0
+  # Keep a zero norm out of the graph: it has no gradient.
+  l2_norm = jnp.sqrt(jnp.where(is_zero, 1.0, sq_norm))
+  factor = jnp.where(is_zero, 0.0, 1 - l2reg * scaling / l2_norm)
   factor = jnp.where(factor >= 0, factor, 0)
   return tree_util.tree_scalar_mul(factor, x)
 
-- 
2.43.0


From c0600a5cf5d82eed2bf9242ac6f64f116160953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 05/25] fix: ProjectedGradient honours implicit_diff_solve

---
 jaxopt/_src/projected_gradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/projected_gradient.py b/jaxopt/_src/projected_gradient.py
index 5093e54..291e01d 100644
--- a/jaxopt/_src/projected_gradient.py
+++ b/jaxopt/_src/projected_gradient.py
@@ -157,5 +157,6 @@ class ProjectedGradient(base.IterativeSolver):
                                 decrease_factor=self.decrease_factor,
                                 verbose=self.verbose,
                                 implicit_diff=self.implicit_diff,
+                                implicit_diff_solve=self.implicit_diff_solve,
                                 jit=self.jit,
                                 unroll=self.unroll)
-- 
2.43.0


From 3fb7357e2dba45dd5cb6af096659aa87bb838552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:30 +0000
Subject: [PATCH 06/25] fix: Huber loss of the scipy least squares wrapper for
 negative residuals

---
 jaxopt/_src/scipy_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fcd116e..ee47bb8 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -581,7 +581,8 @@ class ScipyRootFinding(ScipyWrapper):
 LS_RHO_FUNS = {
     'linear': lambda z: z ** 2,
     'soft_l1': lambda z: 2.0 * ((1 + z ** 2) ** 0.5 - 1),
-    'huber': lambda z: jnp.where(z <= 1, z ** 2, 2.0 * z - 1),
+    'huber': lambda z: jnp.where(
+        jnp.abs(z) <= 1, z ** 2, 2.0 * jnp.abs(z) - 1),
     'cauchy': lambda z: jnp.log1p(z ** 2),
     'arctan': lambda z: jnp.arctan(z ** 2),
 }
-- 
2.43.0


From b124c813085635ccd2ee75f0ac42f9cb5b7ddc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:30 +0000
Subject: [PATCH 07/25] fix: solve_cholesky with matrix right-hand sides

---
 jaxopt/_src/linear_solve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index 34b5d0d..e326ca3 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -95,7 +95,8 @@ def solve_cholesky(matvec: Callable,
   elif len(b.shape) == 1:
     return jsp.linalg.solve(A, b, assume_a='pos')
   elif len(b.shape) == 2:
-    return  jsp.linalg.solve(A, b.ravel(), assume_a='pos').reshape(*b.shape)
+    A = A.reshape(-1, b.shape[0] * b.shape[1])  # 2d array (matrix)
+    return jsp.linalg.solve(A, b.ravel(), assume_a='pos').reshape(*b.shape)
   else:
     raise NotImplementedError
 
-- 
2.43.0


From 6e0b0acfbcb513889739eac4e3c359da6e0e66ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 08/25] fix: Hager-Zhang line search returns the stepsize its
 parameters use

---
 jaxopt/_src/hager_zhang_linesearch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 6d03cd9..1746670 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -520,7 +520,8 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
 
     value_best_point = jnp.minimum(value_low, value_high)
 
-    new_stepsize = jnp.where(state.done, stepsize, best_point)
+    # If the initial bracket was already good, best_point is its best end.
+    new_stepsize = best_point
     new_params = tree_add_scalar_mul(params, best_point, descent_direction)
     (new_value, new_aux), new_grad = self._value_and_grad_fun_with_aux(
         new_params, *fun_args, **fun_kwargs
-- 
2.43.0


From 7001633ee6d02d87b45f53eb106ec881bae2e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:20 +0000
Subject: [PATCH 09/25] fix: Broyden inner products run over all leaves of a
 pytree

---
 jaxopt/_src/broyden.py | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index 9670813..b4fa194 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -38,29 +38,6 @@ from jaxopt.tree_util import tree_l2_norm
 from jaxopt._src.tree_util import tree_single_dtype
 
 
-def matvec(d_history, c_history, x, indices):
-  # CD^T x
-  # here j is the history dimension and i is the space dimension
-  dtx = jnp.einsum('j..., ... -> j', d_history[indices], x)
-  cdtx = jnp.einsum('j..., j -> ...', c_history[indices], dtx)
-  return cdtx
-
-def inv_jacobian_product_leaf(v: jnp.ndarray,
-                              d_history: jnp.ndarray,
-                              c_history: jnp.ndarray,
-                              gamma: float = 1.0,
-                              start: int= 0):
-  # the computation of the jacobian inverse for
-  # the Broyden method
-  # this is done using the notations of DEQ
-  history_size = len(d_history)
-
-  indices = (start + jnp.arange(history_size)) % history_size
-
-  v = gamma * v + matvec(d_history, c_history, v, indices)
-  return v
-
-
 def inv_jacobian_product(pytree: Any,
                          d_history: Any,
                          c_history: Any,
@@ -84,10 +61,17 @@ def inv_jacobian_product(pytree: Any,
       i.e., `gamma * I`.
     start: starting index in the circular buffer.
   """
-  fun = partial(inv_jacobian_product_leaf,
-                gamma=gamma,
-                start=start)
-  return tree_map(fun, pytree, d_history, c_history)
+  history_size = len(jax.tree_util.tree_leaves(d_history)[0])
+  indices = (start + jnp.arange(history_size)) % history_size
+
+  # The inner products with the history run over all the leaves.
+  dtx = sum(jax.tree_util.tree_leaves(tree_map(
+      lambda d, v: jnp.einsum('j..., ... -> j', d[indices], v),
+      d_history, pytree)))
+
+  return tree_map(
+      lambda v, c: gamma * v + jnp.einsum('j..., j -> ...', c[indices], dtx),
+      pytree, c_history)
 
 def inv_jacobian_rproduct(pytree: Any,
                           d_history: Any,
-- 
2.43.0


From 924b1f122167a6cfb2adf9e72effbaffafbf3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 10/25] fix: NonlinearCG error is the gradient norm at the new
 parameters

---
 jaxopt/_src/nonlinear_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/nonlinear_cg.py b/jaxopt/_src/nonlinear_cg.py
index 25151d1..ae3ef55 100644
--- a/jaxopt/_src/nonlinear_cg.py
+++ b/jaxopt/_src/nonlinear_cg.py
@@ -255,7 +255,7 @@ class NonlinearCG(base.IterativeSolver):
     new_descent_direction = tree_add_scalar_mul(tree_scalar_mul(-1, tree_conj(new_grad)),
                                                 new_beta,
                                                 descent_direction)
-    error = tree_l2_norm(grad)
+    error = tree_l2_norm(new_grad)
     realdtype = state.error.dtype
     new_state = NonlinearCGState(iter_num=state.iter_num + 1,
                                  stepsize=jnp.asarray(
-- 
2.43.0


From c31e9a4e2ab718e2ed61358427bb77ad39917083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:15 +0000
Subject: [PATCH 11/25] fix: coordinate Lipschitz constants of the multiclass
 SVM dual depend on l2reg

---
 jaxopt/_src/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/objective.py b/jaxopt/_src/objective.py
index d7776b6..9576ff7 100644
--- a/jaxopt/_src/objective.py
+++ b/jaxopt/_src/objective.py
@@ -327,7 +327,7 @@ class MulticlassLinearSvmDual(CompositeLinearFunction):
   def columnwise_lipschitz_const(self, l2reg, data):
     """Column-wise Lipschitz constants."""
     linop = self.make_linop(l2reg, data)
-    return linop.column_l2_norms(squared=True)
+    return linop.column_l2_norms(squared=True) / l2reg
 
   def b(self, l2reg, data):
     return data[1] - 1
-- 
2.43.0


From 7faa31e9c32dce38eeacc76190193c43749d0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 12/25] fix: BoxCDQP coordinates without curvature move to
 their best bound

---
 jaxopt/_src/cd_qp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/cd_qp.py b/jaxopt/_src/cd_qp.py
index e159879..25fc0e1 100644
--- a/jaxopt/_src/cd_qp.py
+++ b/jaxopt/_src/cd_qp.py
@@ -40,10 +40,12 @@ def fori_loop_body_fun(i, tup):
   g_i = jnp.dot(Q[i], x) + c[i]
   # i-th diagonal element of the Hessian
   h_i = Q[i, i]
-  # Newton-update and avoid division by zero
-  update = jnp.where(h_i == 0, 0, g_i / h_i)
   # Newton-update + clipping to satisfy the box constraint
-  x_i_new = jnp.clip(x[i] - update, l[i], u[i])
+  newton = jnp.clip(x[i] - g_i / jnp.where(h_i == 0, 1, h_i), l[i], u[i])
+  # Without curvature, the objective is linear in x[i]: go to the best bound
+  bound = jnp.where(g_i > 0, l[i],
+                    jnp.where(g_i < 0, u[i], jnp.clip(x[i], l[i], u[i])))
+  x_i_new = jnp.where(h_i == 0, bound, newton)
   delta_i = x_i_new - x[i]
   # Cumulated error
   error += jnp.abs(delta_i)
-- 
2.43.0


From b70be6c39b1fa73c0855eb66d40a4815c13152d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 13/25] fix: Bisection accepts a root at the lower end of the
 interval

---
 jaxopt/_src/bisection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 97f259c..98f25a5 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -96,9 +96,9 @@ class Bisection(base.IterativeSolver):
     # sign = 1: the function is increasing
     # sign = -1: the function is decreasing
     # sign = 0: the root is not contained in [lower, upper]
-    sign = jnp.where((lower_value < 0) & (upper_value >= 0),
+    sign = jnp.where((lower_value <= 0) & (upper_value >= 0),
                      1,
-                     jnp.where((lower_value > 0) & (upper_value <= 0), -1, 0))
+                     jnp.where((lower_value >= 0) & (upper_value <= 0), -1, 0))
 
     if self.check_bracket:
       # Not jittable...
-- 
2.43.0


From 2fe528f75800b65058a130d4af4dadc914203d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:49 +0000
Subject: [PATCH 14/25] fix: Bisection with has_aux=True

---
 jaxopt/_src/bisection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 98f25a5..1369f39 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -90,8 +90,8 @@ class Bisection(base.IterativeSolver):
     lower = jnp.asarray(self.lower, float)
     upper = jnp.asarray(self.upper, float)
 
-    lower_value = self.optimality_fun(lower, *args, **kwargs)
-    upper_value = self.optimality_fun(upper, *args, **kwargs)
+    lower_value, _ = self._fun_with_aux(lower, *args, **kwargs)
+    upper_value, _ = self._fun_with_aux(upper, *args, **kwargs)
 
     # sign = 1: the function is increasing
     # sign = -1: the function is decreasing
@@ -172,7 +172,11 @@ class Bisection(base.IterativeSolver):
     super().__post_init__()
 
     if self.has_aux:
-      self._fun_with_aux = self.optimality_fun
+      fun = self.optimality_fun
+      self._fun_with_aux = fun
+      # The root is that of the first output.
+      self.optimality_fun = lambda *a, **kw: fun(*a, **kw)[0]
+      self.reference_signature = fun
     else:
       self._fun_with_aux = lambda *a, **kw: (self.optimality_fun(*a, **kw),
                                              None)
-- 
2.43.0


From b750a9e39d1a1dd294881af6be98e7482b999eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:39 +0000
Subject: [PATCH 15/25] fix: PolyakSGD SPS_max stepsize is zero for a zero
 gradient

---
 jaxopt/_src/polyak_sgd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/polyak_sgd.py b/jaxopt/_src/polyak_sgd.py
index 22ed6c3..2b6201a 100644
--- a/jaxopt/_src/polyak_sgd.py
+++ b/jaxopt/_src/polyak_sgd.py
@@ -213,8 +213,14 @@ class PolyakSGD(base.StochasticSolver):
 
     grad_sqnorm = tree_l2_norm(grad, squared=True)
     if self.variant == "SPS_max":
-      stepsize = jnp.minimum(
-          (value - self.fun_min) / (grad_sqnorm + self.delta), self.max_stepsize
+      # if the gradient is zero, we set the stepsize to 0 (avoids 0 / 0)
+      stepsize = jnp.where(
+          grad_sqnorm == 0,
+          0.0,
+          jnp.minimum(
+              (value - self.fun_min) / (grad_sqnorm + self.delta),
+              self.max_stepsize,
+          ),
       )
     elif self.variant == "SPS+":
       # if grad_sqnorm is smaller than machine epsilon, we set the stepsize to 0
-- 
2.43.0


From c25beb5f74f6d782f2d050e0d0fe2b1db52d05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:29 +0000
Subject: [PATCH 16/25] fix: LevenbergMarquardt rejects steps to points with a
 NaN or infinite residual

---
 jaxopt/_src/levenberg_marquardt.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 0820e26..93bc61c 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -295,16 +295,11 @@ class LevenbergMarquardt(base.IterativeSolver):
     gain_ratio_test_not_met_ret = gain_ratio_test_false_func(
         *gain_ratio_test_init_state)
 
-    gain_ratio_test_is_met_ret = jax.tree.map(
-        lambda x: gain_ratio_test_is_met * x, gain_ratio_test_is_met_ret)
-
-    gain_ratio_test_not_met_ret = jax.tree.map(
-        lambda x: (1.0 - gain_ratio_test_is_met) * x,
-        gain_ratio_test_not_met_ret)
-
+    # Select (rather than multiply by 0 or 1) so that NaNs and infinities at a
+    # rejected point do not propagate.
     params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux = jax.tree.map(
-        lambda x, y: x + y, gain_ratio_test_is_met_ret,
-        gain_ratio_test_not_met_ret)
+        lambda x, y: jnp.where(gain_ratio_test_is_met, x, y),
+        gain_ratio_test_is_met_ret, gain_ratio_test_not_met_ret)
 
     return params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux
 
-- 
2.43.0


From b43cb404258b83405e7efacf1ba52167eef4de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:29 +0000
Subject: [PATCH 17/25] fix: sign in the madsen-nielsen stopping criterion

---
 jaxopt/_src/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 93bc61c..50970d5 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -171,7 +171,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.verbose:
       print_iteration(state)
     if self.stop_criterion == 'madsen-nielsen':
-      tree_mul_term = self.xtol * (tree_l2_norm(params) - self.xtol)
+      tree_mul_term = self.xtol * (tree_l2_norm(params) + self.xtol)
       return jnp.all(jnp.array([
         tree_inf_norm(state.gradient) > self.gtol,
         tree_l2_norm(state.delta) > tree_mul_term
-- 
2.43.0


From 96555a055a61848455b5f9afb1d73482c564164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:29 +0000
Subject: [PATCH 18/25] fix: LevenbergMarquardt uses jac_fun when the Jacobian
 is materialized

---
 jaxopt/_src/levenberg_marquardt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 50970d5..41e3f6c 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -488,11 +488,11 @@ class LevenbergMarquardt(base.IterativeSolver):
         if self.geodesic:
           self._hess_res_fun = jax.jacfwd(
               jax.jacfwd(self._fun, argnums=(0)), argnums=(0))
-    else:
-      if self.jac_fun:
+      else:
         self._jac_fun = self.jac_fun
         if self.geodesic:
           self._hess_res_fun = jax.jacfwd(self.jac_fun, argnums=(0))
+    else:
       if self.solver == 'qr':
         raise ValueError("QR factorization solver materializes Jacobian to solve the augmented "
                          "Jacobian equation instead of the normal equation. Hence, this solver "
-- 
2.43.0


From f701caeb174e078204b5f136915f750c093287e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:47 +0000
Subject: [PATCH 19/25] fix: LevenbergMarquardt contribution_ratio_threshold
 can be set

---
 jaxopt/_src/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 41e3f6c..9905fce 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -153,7 +153,7 @@ class LevenbergMarquardt(base.IterativeSolver):
 
   solver: Union[Literal['cholesky', 'lu', 'qr', 'inv'], Callable] = solve_cg
   geodesic: bool = False
-  contribution_ratio_threshold = 0.75
+  contribution_ratio_threshold: float = 0.75
 
   verbose: Union[bool, int] = False
   jac_fun: Optional[Callable[..., jnp.ndarray]] = None
-- 
2.43.0


From f3f0b2cfefd05391e05e4c2c4b1feb0a75f4dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 20/25] fix: OSQP infeasibility certificates need a non-zero
 change of the variables

---
 jaxopt/_src/osqp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 83cb920..bb2e5e2 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -554,6 +554,8 @@ class BoxOSQP(base.IterativeSolver):
     certif_A   = tree_reduce(jnp.logical_and, tree_map(jnp.logical_and, certif_l, certif_u))
 
     certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c <= criterion), certif_A)
+    # delta_x = 0 certifies nothing.
+    certif_dual_infeasible = jnp.logical_and(certif_dual_infeasible, tree_inf_norm(delta_x) > 0)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_Q: {certif_Q} certif_c: {certif_c} certif_A: {certif_A} "
@@ -576,6 +578,8 @@ class BoxOSQP(base.IterativeSolver):
     dy_minus  = tree_negative(tree_map(jax.nn.relu, tree_negative(delta_y)))
     certif_lu = tree_add(tree_vdot(bounded_l, dy_minus), tree_vdot(bounded_u, dy_plus))
     certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  <= criterion)
+    # delta_y = 0 certifies nothing.
+    certif_primal_infeasible = jnp.logical_and(certif_primal_infeasible, tree_inf_norm(delta_y) > 0)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
-- 
2.43.0


From 572a5d5e473ab02c6c93d7d9f45f7ec7838c74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 21/25] fix: OSQP Jacobi preconditioner with pytrees of
 matrices

---
 jaxopt/_src/osqp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index bb2e5e2..b7ce1c0 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -217,8 +217,7 @@ class OSQPIndirectSolver:
     _, (_, _, sigma, rho_bar), (precond_Q, precond_A) = solver_state
 
     diag_precond = tree_add_scalar_mul(precond_Q, rho_bar, precond_A)
-    diag_precond = tree_add(diag_precond, sigma)
-    inv_diag = tree_map(lambda m_diag: 1/m_diag, diag_precond)
+    inv_diag = tree_map(lambda m_diag: 1 / (m_diag + sigma), diag_precond)
     return tree_mul(inv_diag, x)
 
   def init_state(self, init_params, params_Q, params_A, sigma, rho_bar):
-- 
2.43.0


From 6c55f6f7605b3898c1c78061414c1284ecaca1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:52 +0000
Subject: [PATCH 22/25] fix: EqualityConstrainedQP fun with pytrees of
 variables

---
 jaxopt/_src/eq_qp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/eq_qp.py b/jaxopt/_src/eq_qp.py
index 0e97a3a..8f0a5ae 100644
--- a/jaxopt/_src/eq_qp.py
+++ b/jaxopt/_src/eq_qp.py
@@ -292,7 +292,7 @@ class EqualityConstrainedQP(base.Solver):
         # nabla_x f(x) = Q x + c
         # Qx = nabla_x f(x) - c
         def fun_minus_cx(xx):
-          return self.fun(xx, params_Q) - jnp.sum(c*xx)
+          return self.fun(xx, params_Q) - tree_vdot(c, xx)
         Qx = jax.grad(fun_minus_cx)(x)
         return Qx
       self.matvec_Q = matvec_Q
-- 
2.43.0


From 6a4da543b52316e24e02c84ec897bacf0eefb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:52 +0000
Subject: [PATCH 23/25] fix: IterativeRefinement corrects the residual of the
 warm start

---
 jaxopt/_src/iterative_refinement.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/iterative_refinement.py b/jaxopt/_src/iterative_refinement.py
index cb32bfb..280d5c6 100644
--- a/jaxopt/_src/iterative_refinement.py
+++ b/jaxopt/_src/iterative_refinement.py
@@ -124,11 +124,12 @@ class IterativeRefinement(base.IterativeSolver):
                  A: Any,
                  b: Any,
                  A_bar: Any = None):
+    # The first correction solves for the residual of the warm start.
     return IterativeRefinementState(
       iter_num=jnp.asarray(0),
       error=jnp.asarray(jnp.inf),
-      target_residuals=b,
-      init=init_params,
+      target_residuals=tree_sub(b, self.matvec_A(A)(init_params)),
+      init=self.init_params(A, b, A_bar),
       num_matvec_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
       num_matvec_bar_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
       num_solve_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE)
-- 
2.43.0


From 94d4cc7d33043eb55ab66fe256ad2d57111d369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:07 +0000
Subject: [PATCH 24/25] fix: ProximalGradient initial aux with value_and_grad

---
 jaxopt/_src/proximal_gradient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 76dba7e..7181476 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -179,7 +179,7 @@ class ProximalGradient(base.IterativeSolver):
     del hyperparams_prox  # Not used.
 
     if self.has_aux:
-      _, aux = self.fun(init_params, *args, **kwargs)
+      _, aux = self._fun_with_aux(init_params, *args, **kwargs)
     else:
       aux = None
 
@@ -327,11 +327,11 @@ class ProximalGradient(base.IterativeSolver):
   def __post_init__(self):
     super().__post_init__()
 
-    fun_with_aux, _, self._value_and_grad_with_aux = \
+    self._fun_with_aux, _, self._value_and_grad_with_aux = \
       base._make_funs_with_aux(fun=self.fun,
                                value_and_grad=self.value_and_grad,
                                has_aux=self.has_aux)
-    fun_without_aux = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
+    fun_without_aux = lambda *a, **kw: self._fun_with_aux(*a, **kw)[0]
 
     # Sets up reference signature.
     fun = getattr(self.fun, "subfun", self.fun)
-- 
2.43.0


From 1be026b41d7d1b5d858d7d90c9fa8be6aae419a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 25/25] fix: LBFGSB orders the pairs of a full history from
 oldest to newest

---
 jaxopt/_src/lbfgsb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index 44f5cf0..2c6278e 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -407,6 +407,12 @@ class LBFGSB(base.IterativeSolver):
     upper_flat = _flatten_and_concat(upper)
     s_history_flat = _flatten_and_concat(state.s_history, batch_ndims=1)
     y_history_flat = _flatten_and_concat(state.y_history, batch_ndims=1)
+    # The compact representation below needs the pairs from oldest to newest;
+    # once the circular buffers are full, the oldest is at `num_updates % m`.
+    oldest = jnp.where(state.num_updates > self.history_size,
+                       state.num_updates % self.history_size, 0)
+    s_history_flat = jnp.roll(s_history_flat, -oldest, axis=0)
+    y_history_flat = jnp.roll(y_history_flat, -oldest, axis=0)
 
     # Construct the limited-memory BFGS matrix from [1], section 3.
     w_flat = jnp.transpose(
-- 
2.43.0

