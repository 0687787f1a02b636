From f67dc49a3b32541a65dc208467af45e71f1ed2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 01/22] fix: masked treats falsy params as absent and rejects
 bare arrays

---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d37ff78..820ead0 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -323,7 +323,7 @@ def masked(
     flat_updates = treedef.flatten_up_to(updates)
     masked_updates = [g for g, m in zip(flat_updates, flat_mask) if m]
 
-    if params:
+    if params is not None:
       flat_params = treedef.flatten_up_to(params)
       masked_params = [p for p, m in zip(flat_params, flat_mask) if m]
     else:
-- 
2.43.0


From a0db8d544e9362898d9e47181d03ba296ed1977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 02/22] fix: MultiSteps drops the params given to update

---
 optax/_src/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index 820ead0..afa044a 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -229,7 +229,6 @@ class MultiSteps:
 
   def update(self, grads: Any, state: MultiStepsState, params: Any = None):
     """Accumulates gradients and proposes non-zero updates every `k_steps`."""
-    del params
     k_steps = self._every_k_schedule(state.gradient_step)
     acc_grads = jax.tree_util.tree_multimap(lambda a, b: a + b, grads,
                                             state.acc_grads)
@@ -241,7 +240,7 @@ class MultiSteps:
       else:
         grads_for_update = acc_grads
       updates, new_inner_state = self._opt.update(
-          grads_for_update, state.inner_opt_state)
+          grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
                                   gradient_step=state.gradient_step + 1,
                                   inner_opt_state=new_inner_state,
-- 
2.43.0


From 7cf0680fb5b32f6bd0a683b7b821d8658aa81ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 03/22] fix: flatten fails on trees without leaves

---
 optax/_src/wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index afa044a..356c4ca 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -48,11 +48,15 @@ def flatten(
   def _flatten(params):
     """Flattens and concatenates all tensors in params to a single vector."""
     params, _ = tree_flatten(params)
+    if not params:
+      return jnp.zeros([0])
     return jnp.concatenate([jnp.reshape(param, [-1]) for param in params])
 
   def _unflatten(updates, flat):
     """Extracts tensors from flat, using the structure and shapes of params."""
     updates_flat, treedef = tree_flatten(updates)
+    if not updates_flat:
+      return updates
     offsets = []
     for update in updates_flat:
       size = np.prod(update.shape)
-- 
2.43.0


From ca476b81225063797788685ed49b0e9c991864bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 04/22] fix: flatten changes the dtype of updates in
 mixed-precision trees

---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index 356c4ca..9c2b842 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -67,7 +67,7 @@ def flatten(
     del offsets[-1]
     flat_split = jnp.split(flat, offsets)
     reshaped = [
-        jnp.reshape(flat_update, update.shape)
+        jnp.reshape(flat_update, update.shape).astype(update.dtype)
         for flat_update, update in zip(flat_split, updates_flat)
     ]
     return tree_unflatten(treedef, reshaped)
-- 
2.43.0


From 8028f949abda9494ff354abfb18c90a4d3480401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 05/22] fix: lookahead passes the slow/fast pair as params of
 the fast optimizer

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 7f84f2b..1f6ec30 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -114,7 +114,7 @@ def lookahead(
       updates: base.Updates, state: LookaheadState,
       params: LookaheadParams) -> Tuple[LookaheadParams, LookaheadState]:
     updates, fast_state = fast_optimizer.update(updates, state.fast_state,
-                                                params)
+                                                params.fast)
 
     sync_next = (state.steps_since_sync == sync_period - 1)
     updates = _lookahead_update(updates, sync_next, params, slow_step_size)
-- 
2.43.0


From 63beadeb0e7fd663485df5656ef0791722713af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 06/22] fix: lookahead reset_state changes dtypes and keeps NaN
 and Inf states

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 1f6ec30..58ab7ee 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -123,7 +123,7 @@ def lookahead(
       # synchronized after this update step.
       initial_state = fast_optimizer.init(params.fast)
       fast_state = jax.tree_multimap(
-          lambda current, init: (1 - sync_next) * current + sync_next * init,
+          lambda current, init: jnp.where(sync_next, init, current),
           fast_state, initial_state)
 
     steps_since_sync = (state.steps_since_sync + 1) % sync_period
-- 
2.43.0


From 00df2c3b1c00ae4889d78557ec7f0c48f018fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 07/22] fix: ema without debiasing returns the raw updates

---
 optax/_src/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8f5a6ad..9f5ae7b 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -127,6 +127,8 @@ def ema(
     count_inc = utils.safe_int32_increment(state.count)
     if debias:
       updates = _bias_correction(new_ema, decay, count_inc)
+    else:
+      updates = new_ema
     new_ema = utils.cast_tree(new_ema, accumulator_dtype)
     return updates, EmaState(count=count_inc, ema=new_ema)
 
-- 
2.43.0


From 36e8f6258433bee61bf349a763ae4c0ba956b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 08/22] fix: add_noise uses the variance as standard deviation

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 9f5ae7b..2f418f9 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -635,13 +635,13 @@ def add_noise(
     num_vars = len(jax.tree_leaves(updates))
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
-    variance = eta / count_inc**gamma
+    standard_deviation = jnp.sqrt(eta / count_inc**gamma)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
         lambda g, k: jax.random.normal(k, shape=g.shape, dtype=g.dtype),
         updates, jax.tree_unflatten(treedef, all_keys[1:]))
     updates = jax.tree_multimap(
-        lambda g, n: g + variance.astype(g.dtype) * n,
+        lambda g, n: g + standard_deviation.astype(g.dtype) * n,
         updates, noise)
     return updates, AddNoiseState(count=count_inc, rng_key=all_keys[0])
 
-- 
2.43.0


From ac409ac1debbc3d3e00a450fad5a6fec4e1753fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 09/22] fix: noisy_sgd adds the noise to the scaled updates
 instead of the gradients

---
 optax/_src/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/alias.py b/optax/_src/alias.py
index 2e61aa7..08625f8 100644
--- a/optax/_src/alias.py
+++ b/optax/_src/alias.py
@@ -275,8 +275,8 @@ def noisy_sgd(
     the corresponding `GradientTransformation`.
   """
   return combine.chain(
-      _scale_by_learning_rate(learning_rate),
       transform.add_noise(eta, gamma, seed),
+      _scale_by_learning_rate(learning_rate),
   )
 
 
-- 
2.43.0


From 44e2d4a3cb4dd9f111125ba684e0a99e0b2e3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 10/22] fix: apply_every keeps NaN and Inf of earlier cycles

---
 optax/_src/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 2f418f9..dbf3d2b 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -681,9 +681,11 @@ def apply_every(
     c = state.count % k
     acc = c != 0
     grad_acc = jax.tree_multimap(
-        lambda g, ga: acc * ga + g, updates, state.grad_acc)
+        lambda g, ga: jnp.where(acc, ga, jnp.zeros_like(ga)) + g,
+        updates, state.grad_acc)
     emit = c == (k - 1)
-    updates = jax.tree_map(lambda ga: emit * ga, grad_acc)
+    updates = jax.tree_map(
+        lambda ga: jnp.where(emit, ga, jnp.zeros_like(ga)), grad_acc)
     count_inc = numerics.safe_int32_increment(state.count)
     return updates, ApplyEvery(count=count_inc % k, grad_acc=grad_acc)
 
-- 
2.43.0


From 3f4ef5c19aa3545678059d7e882cec31b49a59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 11/22] fix: lookahead leaks NaN and Inf into the updates
 between synchronisations

---
 optax/_src/lookahead.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 58ab7ee..b5ab6d0 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -182,10 +182,13 @@ def _lookahead_update(
   #                  1 - slow_step_size) * sync_next * last_difference
   last_difference = jax.tree_multimap(lambda f, u, s: f + u - s, params.fast,
                                       updates, params.slow)
-  slow_updates = jax.tree_map(lambda diff: slow_step_size * sync_next * diff,
-                              last_difference)
+  slow_updates = jax.tree_map(
+      lambda diff: jnp.where(
+          sync_next, slow_step_size * diff, jnp.zeros_like(diff)),
+      last_difference)
   fast_updates = jax.tree_multimap(
-      lambda up, diff: up - sync_next * (1 - slow_step_size) * diff, updates,
+      lambda up, diff: jnp.where(
+          sync_next, up - (1 - slow_step_size) * diff, up), updates,
       last_difference)
 
   return LookaheadParams(fast=fast_updates, slow=slow_updates)
-- 
2.43.0


From 0f7154a2520d77bdef77877aa0a6f6b57226f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 12/22] fix: sm3 accumulators are float32 whatever the dtype of
 the parameters

---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index dbf3d2b..5ca463e 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -749,7 +749,7 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s]) for s in p.shape]
+    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
-- 
2.43.0


From 393c85ce1b520507438d48c455738747714e515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 13/22] fix: sm3 fails on scalar parameters

---
 optax/_src/transform.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 5ca463e..55c2ca4 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -749,7 +749,8 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape]
+    # Scalars have no axes, they use a single accumulator of one element.
+    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape or (1,)]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
@@ -765,13 +766,13 @@ def scale_by_sm3(
   def _new_accum(g, v):
     coeffs = ((1.0 - b2) if b2 != 1.0 else 1.0, b2)
     if g.ndim < 2:
-      return coeffs[0]*g**2 + coeffs[1]*v[0]
+      return coeffs[0]*g**2 + coeffs[1]*jnp.reshape(v[0], g.shape)
     else:
       return coeffs[0]*g**2 + coeffs[1]*functools.reduce(jnp.minimum, v)
 
   def _new_mu(g, i):
     if g.ndim < 2:
-      return g
+      return jnp.reshape(g, [-1])
     else:
       return jnp.max(g, axis=other_axes(i, g.ndim))
 
@@ -782,7 +783,8 @@ def scale_by_sm3(
     del params
     mu = jax.tree_multimap(
         lambda g, v:  # pylint:disable=g-long-lambda
-        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)],
+        [jnp.reshape(v[i], _expanded_shape(g.shape, i))
+         for i in range(g.ndim)] or v,
         updates, state.mu)
     accum = jax.tree_multimap(_new_accum, updates, mu)
     accum_inv_sqrt = jax.tree_map(
@@ -790,7 +792,7 @@ def scale_by_sm3(
     up = jax.tree_multimap(lambda g, a: g*a, updates, accum_inv_sqrt)
     nu = _update_moment(up, state.nu, b1, 1)
     mu = jax.tree_map(
-        lambda g: [_new_mu(g, i) for i in range(g.ndim)], accum)
+        lambda g: [_new_mu(g, i) for i in range(max(g.ndim, 1))], accum)
 
     return nu, ScaleBySM3State(mu=mu, nu=nu)
 
-- 
2.43.0


From fb121150b907637aedb9601d2764df7cdf869265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 14/22] fix: a wider accumulator dtype of trace and ema changes
 the dtype of the updates

---
 optax/_src/transform.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 55c2ca4..9e135a5 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -66,8 +66,10 @@ def trace(
     del params
     f = lambda g, t: g + decay * t
     new_trace = jax.tree_multimap(f, updates, state.trace)
-    updates = (
+    new_updates = (
         jax.tree_multimap(f, updates, new_trace) if nesterov else new_trace)
+    updates = jax.tree_multimap(
+        lambda u, g: u.astype(g.dtype), new_updates, updates)
     new_trace = utils.cast_tree(new_trace, accumulator_dtype)
     return updates, TraceState(trace=new_trace)
 
@@ -125,10 +127,10 @@ def ema(
     del params
     new_ema = _update_moment(updates, state.ema, decay, order=1)
     count_inc = utils.safe_int32_increment(state.count)
-    if debias:
-      updates = _bias_correction(new_ema, decay, count_inc)
-    else:
-      updates = new_ema
+    new_updates = (
+        _bias_correction(new_ema, decay, count_inc) if debias else new_ema)
+    updates = jax.tree_multimap(
+        lambda u, g: u.astype(g.dtype), new_updates, updates)
     new_ema = utils.cast_tree(new_ema, accumulator_dtype)
     return updates, EmaState(count=count_inc, ema=new_ema)
 
-- 
2.43.0


From 684378a415f48897d9230abb4d67649d41d1b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 15/22] fix: piecewise interpolation is NaN when the first
 boundary is 0

---
 optax/_src/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 0503bd0..67521de 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -279,7 +279,8 @@ def piecewise_interpolate_schedule(
 
   bounds = jnp.stack((0,) + boundaries)
   values = jnp.cumprod(jnp.stack((init_value,) + scales))
-  interval_sizes = (bounds[1:] - bounds[:-1])
+  # Empty intervals are never selected, they must not divide by zero either.
+  interval_sizes = jnp.maximum(bounds[1:] - bounds[:-1], 1)
 
   def schedule(count):
     indicator = (bounds[:-1] <= count) & (count < bounds[1:])
-- 
2.43.0


From 4337bd894ad7b50ebe45275ba88f99a57f43119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 16/22] fix: onecycle schedules lose a factor when two
 boundaries coincide

---
 optax/_src/schedule.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 67521de..5875876 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -291,6 +291,15 @@ def piecewise_interpolate_schedule(
   return schedule
 
 
+def _merge_boundaries(boundaries, scales):
+  """Builds a boundaries dict, multiplying the scales of equal boundaries."""
+  boundaries_and_scales = {}
+  for boundary, scale in zip(boundaries, scales):
+    boundaries_and_scales[boundary] = (
+        boundaries_and_scales.get(boundary, 1.) * scale)
+  return boundaries_and_scales
+
+
 def linear_onecycle_schedule(
     transition_steps: int,
     peak_value: float,
@@ -328,9 +337,11 @@ def linear_onecycle_schedule(
   return piecewise_interpolate_schedule(
       'linear',
       peak_value / div_factor,
-      {int(pct_start * transition_steps): div_factor,
-       int(pct_final * transition_steps): 1. / div_factor,
-       transition_steps: 1. / final_div_factor})
+      _merge_boundaries(
+          (int(pct_start * transition_steps),
+           int(pct_final * transition_steps),
+           transition_steps),
+          (div_factor, 1. / div_factor, 1. / final_div_factor)))
 
 
 def cosine_onecycle_schedule(
@@ -367,8 +378,9 @@ def cosine_onecycle_schedule(
   return piecewise_interpolate_schedule(
       'cosine',
       peak_value / div_factor,
-      {int(pct_start * transition_steps): div_factor,
-       int(transition_steps): 1. / (div_factor * final_div_factor)})
+      _merge_boundaries(
+          (int(pct_start * transition_steps), int(transition_steps)),
+          (div_factor, 1. / (div_factor * final_div_factor))))
 
 
 def join_schedules(schedules: Sequence[base.Schedule],
-- 
2.43.0


From 48e8c1d6bec00fab59b06022246b164143ce1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 17/22] fix: matrix_inverse_pth_root is wrong for p other than
 1, 2, 4 and 8

---
 optax/_src/linear_algebra.py | 56 ++++++++++++------------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 5e25b0f..1fbccf9 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -122,45 +122,25 @@ def matrix_inverse_pth_root(
       error_tolerance=1e-6, precision=precision)
   ridge_epsilon = ridge_epsilon * jnp.maximum(max_ev, 1e-16)
 
-  def _unrolled_mat_pow_1(mat_m):
-    """Computes mat_m^1."""
-    return mat_m
-
-  def _unrolled_mat_pow_2(mat_m):
-    """Computes mat_m^2."""
-    return jnp.matmul(mat_m, mat_m, precision=precision)
-
-  def _unrolled_mat_pow_4(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_2 = _unrolled_mat_pow_2(mat_m)
-    return jnp.matmul(
-        mat_pow_2, mat_pow_2, precision=precision)
-
-  def _unrolled_mat_pow_8(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_4 = _unrolled_mat_pow_4(mat_m)
-    return jnp.matmul(
-        mat_pow_4, mat_pow_4, precision=precision)
-
   def mat_power(mat_m, p):
-    """Computes mat_m^p, for p == 1, 2, 4 or 8.
-
-    Args:
-      mat_m: a square matrix
-      p: a positive integer
-
-    Returns:
-      mat_m^p
-    """
-    # We unrolled the loop for performance reasons.
-    exponent = jnp.round(jnp.log2(p))
-    return lax.switch(
-        jnp.asarray(exponent, jnp.int32), [
-            _unrolled_mat_pow_1,
-            _unrolled_mat_pow_2,
-            _unrolled_mat_pow_4,
-            _unrolled_mat_pow_8,
-        ], (mat_m))
+    """Computes mat_m^p for a positive integer p, by repeated squaring."""
+    def _has_bits(state):
+      return state[0] > 0
+
+    def _next_bit(state):
+      exponent, square, result = state
+      result = lax.cond(
+          exponent % 2 == 1,
+          lambda r: jnp.matmul(r, square, precision=precision),
+          lambda r: r, result)
+      square = jnp.matmul(square, square, precision=precision)
+      return exponent // 2, square, result
+
+    return lax.while_loop(
+        _has_bits, _next_bit,
+        (jnp.asarray(p, jnp.int32), mat_m,
+         jnp.eye(matrix_size, dtype=mat_m.dtype))
+    )[2]
 
   def _iter_condition(state):
     (i, unused_mat_m, unused_mat_h, unused_old_mat_h, error,
-- 
2.43.0


From e055d8950f279ce73ffa8a5417783187850f8b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 18/22] fix: scale_by_radam changed the dtype of low-precision
 updates and could not be jitted

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 9e135a5..86ab8ec 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -461,7 +461,8 @@ def scale_by_radam(
     nu_hat = params[2]
     r = jnp.sqrt((ro - 4)*(ro - 2)*ro_inf/((ro_inf - 4)*(ro_inf - 2)*ro))
     updates = jax.tree_multimap(
-        lambda m, v: r*m / (jnp.sqrt(v + eps_root) + eps), mu_hat, nu_hat)
+        lambda m, v: (r*m / (jnp.sqrt(v + eps_root) + eps)).astype(m.dtype),
+        mu_hat, nu_hat)
     return updates
 
   def init_fn(params):
-- 
2.43.0


From 3d9a716d07cdc85d56437fe44a4e195df9901e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 19/22] fix: scale_by_radam doubled the int32 step count, which
 overflows from 2**30 on

---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 86ab8ec..eef2791 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -476,7 +476,7 @@ def scale_by_radam(
     nu = _update_moment(updates, state.nu, b2, 2)
     count_inc = numerics.safe_int32_increment(state.count)
     b2t = b2**count_inc
-    ro = ro_inf - 2 * count_inc * b2t / (1 - b2t)
+    ro = ro_inf - 2 * b2t * count_inc / (1 - b2t)
     mu_hat = _bias_correction(mu, b1, count_inc)
     nu_hat = _bias_correction(nu, b2, count_inc)
     updates = jax.lax.cond(
-- 
2.43.0


From 1558b5ca667323f912f7b269f211849d30b79609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 20/22] fix: clip_by_global_norm changed the dtype of leaves in
 mixed-precision trees

---
 optax/_src/clipping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/clipping.py b/optax/_src/clipping.py
index e571a9e..e677717 100644
--- a/optax/_src/clipping.py
+++ b/optax/_src/clipping.py
@@ -76,7 +76,8 @@ def clip_by_global_norm(max_norm) -> base.GradientTransformation:
     # updates = jax.tree_map(lambda t: (t / g_norm) * max_norm, updates)
     trigger = g_norm < max_norm
     updates = jax.tree_map(
-        lambda t: jnp.where(trigger, t, (t / g_norm) * max_norm), updates)
+        lambda t: jnp.where(  # pylint:disable=g-long-lambda
+            trigger, t, ((t / g_norm) * max_norm).astype(t.dtype)), updates)
     return updates, state
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From 6ba2566450f2a44db27e4b843e9465dc472e9745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 21/22] fix: differentially_private_aggregate changed the dtype
 of leaves in mixed-precision trees

---
 optax/_src/privacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index 8c1b103..edb9265 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -70,7 +70,8 @@ def differentially_private_aggregate(
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
     divisors = jnp.maximum(global_grad_norms / l2_norm_clip, 1.0)
-    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1) for g in grads_flat]
+    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1).astype(g.dtype)
+               for g in grads_flat]
     noised = [(g + noise_std * jax.random.normal(r, g.shape, g.dtype)) / bsize
               for g, r in zip(clipped, rngs)]
     return (jax.tree_unflatten(grads_treedef, noised),
-- 
2.43.0


From 5fed5202ee1db04dfac1baea56dd1397cde62ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:05 +0000
Subject: [PATCH 22/22] fix: raise ValueError also when the first leaf has no
 batch axis in DP aggregation

---
 optax/_src/privacy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index edb9265..e8c4983 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -59,13 +59,14 @@ def differentially_private_aggregate(
   def update_fn(updates, state, params=None):
     del params
     grads_flat, grads_treedef = jax.tree_flatten(updates)
-    bsize = grads_flat[0].shape[0]
 
-    if any(g.ndim == 0 or bsize != g.shape[0] for g in grads_flat):
+    if any(g.ndim == 0 or g.shape[0] != grads_flat[0].shape[0]
+           for g in grads_flat):
       raise ValueError(
           'Unlike other transforms, `differentially_private_aggregate` expects'
           ' `updates` to have a batch dimension in the 0th axis. That is, this'
           ' function expects per-example gradients as input.')
+    bsize = grads_flat[0].shape[0]
 
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
-- 
2.43.0

