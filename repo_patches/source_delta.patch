From 9837cc2710298f5c0716681d48a7de6ad4cfabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 01/58] fix: deliver time-independent array variables unchanged
 at each step

The access index of a variable without time dimension was step * item,
so the values delivered to the module depended on the step.
---
 src/wax/stream.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f45c037..ec84c1a 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -223,11 +223,10 @@ def get_dataset_index(dataset: xr.Dataset, time_dataset_index: xr.Dataset) -> xr
             if not onp.shape(var):
                 dataset_index[dim] = xr.DataArray(onp.arange(n_steps), dims=("step",))
             else:
-                values_atleast_1d = onp.atleast_1d(var.values)
-                # grid = onp.indices(values_atleast_1d.shape)
-                flat_idx = onp.arange(len(values_atleast_1d.ravel()))
+                # the variable does not depend on time: access all its items at each step.
+                idx = onp.arange(len(var.values))
                 dataset_index[dim] = xr.DataArray(
-                    onp.outer(onp.arange(n_steps), flat_idx),
+                    onp.tile(idx, (n_steps, 1)),
                     dims=("step", cast(str, dim) + "_flat_idx"),
                 )
     return dataset_index
-- 
2.43.0


From 4146093b4662ed981edce2fda5dfe566f44fbfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 02/58] fix: mask missing observations along the leading dims
 in access_data

The mask of missing observations of a buffered variable with more than
one dimension was broadcast against the trailing dims of the values:
it raised an error, or masked the wrong items when the shapes matched.
---
 src/wax/stream.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index ec84c1a..591c9d8 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -357,10 +357,14 @@ def access_data(step: int, x: Any, idx: Any):
     """
     step_idx = idx[step]
     # output = x[step_idx]
+    values = jnp.atleast_1d(x)[step_idx]
+    missing = jnp.asarray(step_idx) < 0
+    # the index applies to the leading dims of the values.
+    missing = missing.reshape(missing.shape + (1,) * (values.ndim - missing.ndim))
     output = jnp.where(
-        step_idx < 0,
-        jnp.full_like(jnp.atleast_1d(x)[step_idx], DTYPE_INIT_VALUES[x.dtype.type]),
-        jnp.atleast_1d(x)[step_idx],
+        missing,
+        jnp.full_like(values, DTYPE_INIT_VALUES[x.dtype.type]),
+        values,
     )
     return output
 
-- 
2.43.0


From 1bbe690550096fbd6114d70a233a1b3166d738ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 03/58] fix: push the first observation of a secondary stream
 only once in its buffer

The generators yield their first observation twice (once for the
initialization), hence the buffer of a secondary stream contained it twice.
---
 src/wax/stream.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 591c9d8..f72a0cb 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -637,6 +637,13 @@ class Stream:
 
         original_streams = streams.copy()
         local_time = self.get_local_time(streams)
+
+        # The first observation, read above for initialization, is yielded again by the
+        # generators: skip this repetition in order to process it only once.
+        for time_dim, stream in streams.items():
+            if time_dim != local_time:
+                stream_obs[time_dim] = next(stream)  # type: ignore
+
         while True:
             # local loop
             streams = original_streams.copy()
-- 
2.43.0


From d8fb7ca63b498f71a36288086498fcaa825a7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 04/58] fix: keep the first output in gym_static_unroll when
 skip_first is false

The module was applied on the first observation, but its output was dropped.
---
 src/wax/unroll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index b7f7dec..858f15d 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -418,7 +418,7 @@ def gym_static_unroll(gym_fun, params, state, seq, skip_first, data_generator, p
         y, state = gym_fun.apply(params, state, next(seq), obs)
         y, treedef = tree_flatten(y)
         if ys is None:
-            ys = tuple([] for _ in y)
+            ys = tuple([y_] for y_ in y)
 
     if pbar:
         data_generator = tqdm(data_generator, desc="gym_static_unroll")
-- 
2.43.0


From ae7968d4d6ab410cff19fdf89bf3b2c2af7bae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 05/58] fix: let static_scan run without xs

As with jax.lax.scan, xs=None runs length steps. It raised an IndexError
since there is no array to iterate on.
---
 src/wax/unroll.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 858f15d..0542a34 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -258,10 +258,12 @@ def static_scan(scan_f, init, xs=None, length=None, pbar=False):
     See https://jax.readthedocs.io/en/latest/_autosummary/jax.lax.scan.html#jax-lax-scan
     """
     if xs is None:
-        xs = [None] * length
+        steps = iter([None] * length)
+    else:
+        steps = iter_first_axis(xs, pbar=pbar)
     carry = init
     ys = None
-    for x in iter_first_axis(xs, pbar=pbar):
+    for x in steps:
         carry, y = scan_f(carry, x)
 
         y, treedef = tree_flatten(y)
-- 
2.43.0


From 087c3effb10dec50659d746eca8eb5f652f88a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 06/58] fix: use the given random key in
 transform_batch_with_state

As announced in its comment and done in the static version, apply replaces
the random key of the state by the given one. It was ignored.
---
 src/wax/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/transform.py b/src/wax/transform.py
index dd8037a..588c8aa 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -54,10 +54,11 @@ def transform_batch_with_state(fun, skip_first=False):
     def apply(params, state, key, xs):
         # params is not used ... (and is empty)
         # replace state rng_key by given rng_key
+        init_state = BatchState(state.fun_params, state.fun_state, key)
         # we drop the first observation because it has been used in initialization....
         if skip_first:
             xs = tree_map(lambda x: x[1:], xs)
-        final_state, output_sequence = jax.lax.scan(scan_f, init=state, xs=xs)
+        final_state, output_sequence = jax.lax.scan(scan_f, init=init_state, xs=xs)
         assert isinstance(final_state, BatchState)
         return output_sequence, final_state
 
-- 
2.43.0


From 69096fc90e584fb8d239543edae35d726ea2c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 07/58] fix: let vmap_lift_with_state and add_batch fall back
 cleanly when apply has no key

---
 src/wax/stateful.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/stateful.py b/src/wax/stateful.py
index 65fccd1..4d671b9 100644
--- a/src/wax/stateful.py
+++ b/src/wax/stateful.py
@@ -50,6 +50,8 @@ def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
                 rng = jax.random.split(rng, num=n_batches)
             else:
                 rng = None
+            # drawn before the lift, which cannot be left unfinished when there is no key
+            apply_rng = jax.random.split(hk.next_rng_key(), num=n_batches)
 
             @jax.vmap
             def init_fn(rng, *args, **kwargs):
@@ -64,9 +66,7 @@ def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
             def apply_fn(params, state, rng, *args, **kwargs):
                 return tfun.apply(params, state, rng, *args, **kwargs)
 
-            rng = hk.next_rng_key()
-            rng = jax.random.split(rng, num=n_batches)
-            out, state = apply_fn(params, state, rng, *args, **kwargs)
+            out, state = apply_fn(params, state, apply_rng, *args, **kwargs)
 
         updater.update(state)
         return out
-- 
2.43.0


From a620f4a6d09cd6fe8dccb4e91ce919c9c493111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 08/58] fix: return the lagged value and the state from Lag
 when return_state is set

---
 src/wax/modules/lag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/modules/lag.py b/src/wax/modules/lag.py
index 36c724f..e030349 100644
--- a/src/wax/modules/lag.py
+++ b/src/wax/modules/lag.py
@@ -29,6 +29,9 @@ class Lag(Buffer):
         self.lag = lag
 
     def __call__(self, x):
+        if self.return_state:
+            buffer, state = super().__call__(x)
+            return buffer[0], state
         buffer = super().__call__(x)
         return buffer[0]
 
-- 
2.43.0


From efeaff6e60b7bcaf527f550f86ed429b3b7b19f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 09/58] fix: give the input to Lag in PctChange without forward
 fill

---
 src/wax/modules/pct_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 7525485..11259fb 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -54,7 +54,7 @@ class PctChange(hk.Module):
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
-            previous_x = Lag(self.periods)()
+            previous_x = Lag(self.periods)(x)
         pct_change = x / previous_x - 1.0
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
-- 
2.43.0


From 534df7d785969bb7172f2aee89534da303102632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 10/58] fix: numba ewma no longer modifies the state it resumes
 from

---
 src/wax/numba/ewma_numba.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 4bdca13..67fdf21 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -115,9 +115,10 @@ def ewma(
 
         if state is None:
             state = init_ewma_state(values)
-        mean = state.mean
-        old_wt = state.old_wt
-        nobs = state.nobs
+        # numba_apply works in place: leave the state of the caller untouched
+        mean = np.array(state.mean)
+        old_wt = np.array(state.old_wt)
+        nobs = np.array(state.nobs)
 
         res, mean, old_wt, nobs = numba_apply(values, mean, old_wt, nobs)
         state = EWMAState(mean, old_wt, nobs)
-- 
2.43.0


From 8c41574be54756bb98754aec6917cb37912c7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 11/58] fix: ignore missing inputs in the Flax OHLC bin

---
 src/wax/flax/modules/ohlc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index 6786b26..4a4a775 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -75,7 +75,7 @@ class OHLC(nn.Module):
         current_open = open_val.value
         current_high = high_val.value
         current_low = low_val.value
-        # The previous close is never needed: CLOSE is always the latest input.
+        current_close = close_val.value
 
         # Determine if this is the first valid input or a reset
         is_first_or_reset = should_reset | jnp.isnan(current_open)
@@ -84,13 +84,13 @@ class OHLC(nn.Module):
         new_open = jnp.where(is_first_or_reset, input, current_open)
 
         # Update HIGH: max of current high and input, or input if first/reset
-        new_high = jnp.where(is_first_or_reset, input, jnp.maximum(current_high, input))
+        new_high = jnp.where(is_first_or_reset, input, jnp.fmax(current_high, input))
 
         # Update LOW: min of current low and input, or input if first/reset
-        new_low = jnp.where(is_first_or_reset, input, jnp.minimum(current_low, input))
+        new_low = jnp.where(is_first_or_reset, input, jnp.fmin(current_low, input))
 
-        # Update CLOSE: always set to current input
-        new_close = input
+        # Update CLOSE: the last valid input of the bin
+        new_close = jnp.where(jnp.isnan(input) & ~should_reset, current_close, input)
 
         # Update state variables
         open_val.value = new_open
-- 
2.43.0


From 89d9de17c36151049489738d3207c9fb74029f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 12/58] fix: broadcast the mean along the reduced axis in
 MaskStd

---
 src/wax/modules/mask_std.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/modules/mask_std.py b/src/wax/modules/mask_std.py
index 8d32888..f511c64 100644
--- a/src/wax/modules/mask_std.py
+++ b/src/wax/modules/mask_std.py
@@ -52,6 +52,8 @@ class MaskStd(hk.Module):
 
             count = mask.sum(axis=self.axis)
             mean = x.sum(axis=self.axis) / count
+            if self.axis is not None:
+                mean = jnp.expand_dims(mean, self.axis)
 
             if self.assume_centered:
                 diff = x
-- 
2.43.0


From 56a5cff2795559f8cf6d2e8ae66f42e9b2ec69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 13/58] fix: broadcast the standard deviation along the reduced
 axis in MaskNormalize

---
 src/wax/flax/modules/mask_normalize.py | 2 ++
 src/wax/modules/mask_normalize.py      | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index f8a8498..fae405c 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -52,6 +52,8 @@ class MaskNormalize(nn.Module):
         def normalize_fn(x):
             # Compute standard deviation over masked regions
             x_std = self.mask_std(mask, x)
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
 
             # Normalize by dividing by standard deviation
             x_normalized = x / x_std
diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index e7067df..f7d6fd1 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -14,6 +14,7 @@
 """Normalize data by its standard deviation computed with a mask."""
 
 import haiku as hk
+import jax.numpy as jnp
 from jax.tree_util import tree_map
 
 from wax.modules.fill_nan_inf import FillNanInf
@@ -45,6 +46,8 @@ class MaskNormalize(hk.Module):
 
         def normalize(x):
             x_std = MaskStd(axis=self.axis, assume_centered=self.assume_centered)(mask, x)
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = FillNanInf()(x / x_std)
             return x_normalized
 
-- 
2.43.0


From 37f745adcafa8c109b69a2c216ec4b4cb0ac3bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 14/58] fix: let Flax MaskStd treat a selected missing value as
 MaskMean does

---
 src/wax/flax/modules/mask_std.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/mask_std.py b/src/wax/flax/modules/mask_std.py
index 967b86b..22c19c6 100644
--- a/src/wax/flax/modules/mask_std.py
+++ b/src/wax/flax/modules/mask_std.py
@@ -74,7 +74,7 @@ class MaskStd(nn.Module):
                         mean = mean[None, ...] if x.ndim > 1 else mean
                     elif self.axis == 1:
                         mean = mean[..., None] if x.ndim > 1 else mean
-                diff = x - mean
+                diff = x_masked - mean
 
                 # Re-mask the differences
                 diff = self.apply_mask(mask, diff)
-- 
2.43.0


From 1ee59d6c405823efa012aa0996dc5c41db90a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 15/58] fix: accept a random key in streaming_scan's scan_apply

---
 src/wax/flax/core/streaming_transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 6583ab4..5d37c25 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -671,7 +671,8 @@ def streaming_scan(
             if params is None or state is None:
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
-                params, state = streaming_fn.init(rng or jax.random.PRNGKey(0), sample_input)
+                init_rng = jax.random.PRNGKey(0) if rng is None else rng
+                params, state = streaming_fn.init(init_rng, sample_input)
 
             # Create scan function that applies streaming function element by element
             def scan_body(carry_state, x):
-- 
2.43.0


From af8c55dae06ff9d34414944151c12110a102a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 16/58] fix: let StreamingScan evaluate its reset function
 under scan

---
 src/wax/flax/core/streaming_transforms.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 5d37c25..490a322 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -603,15 +603,14 @@ class StreamingScan(nn.Module):
         def scan_fn(carry, x):
             """Inner scan function with reset logic."""
 
-            # Check if we should reset state
-            should_reset = False
-            if self.reset_fn is not None:
+            # Reset to the initial state if needed (JAX-compatible)
+            if self.reset_fn is not None and self.preserve_state:
                 should_reset = self.reset_fn(x)
-
-            # Reset state if needed
-            if should_reset and self.preserve_state:
-                # Reset to initial state
-                carry = initial_state
+                carry = jax.tree_util.tree_map(
+                    lambda init, current: jnp.where(should_reset, init, current),
+                    initial_state,
+                    carry,
+                )
 
             # Apply the streaming function
             # For now, we'll implement a simple pass-through that maintains carry structure
-- 
2.43.0


From 9a4572b74f3f63e41887f71f417a270d424db128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 17/58] fix: filter with the lagged outputs and inputs, item by
 item, in the Flax ARMA

---
 src/wax/flax/modules/arma.py | 51 ++++++++++++++----------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/src/wax/flax/modules/arma.py b/src/wax/flax/modules/arma.py
index 777aa23..fe81246 100644
--- a/src/wax/flax/modules/arma.py
+++ b/src/wax/flax/modules/arma.py
@@ -13,12 +13,9 @@
 # limitations under the License.
 """Flax-based ARMA module for Autoregressive Moving Average filtering."""
 
-from typing import cast
-
 import flax.linen as nn
 import jax.numpy as jnp
 
-from .buffer import Buffer
 from .fill_nan_inf import FillNanInf
 
 
@@ -29,9 +26,9 @@ class ARMA(nn.Module):
     moving average (MA) components for time-series processing.
 
     The ARMA model is defined as:
-    y[t] = sum(alpha[i] * y[t-i]) + sum(beta[j] * eps[t-j])
+    y[t] = eps[t] + sum(alpha[i-1] * y[t-i]) + sum(beta[j-1] * eps[t-j])
 
-    where:
+    where i and j start at 1, and:
     - alpha: AR coefficients
     - beta: MA coefficients
     - eps: Input noise/error terms
@@ -48,18 +45,10 @@ class ARMA(nn.Module):
         if self.beta.ndim != 1:
             raise ValueError("beta must be a 1-D array")
 
-        # Create buffers for AR and MA components
-        # AR buffer stores previous outputs
-        if len(self.alpha) > 0:
-            self.ar_buffer = Buffer(maxlen=len(self.alpha), fill_value=0.0)
-
-        # MA buffer stores previous inputs (noise terms)
-        if len(self.beta) > 0:
-            self.ma_buffer = Buffer(maxlen=len(self.beta), fill_value=0.0)
-
         # Module for handling NaN/Inf values
         self.fill_nan_inf = FillNanInf()
 
+    @nn.compact
     def __call__(self, eps: jnp.ndarray) -> jnp.ndarray:
         """Apply ARMA filter to input noise term.
 
@@ -72,35 +61,33 @@ class ARMA(nn.Module):
         # Ensure input is an array
         eps = jnp.asarray(eps)
 
+        def history(name, coefs):
+            # previous values, most recent first
+            return self.variable(
+                "state", name, lambda: jnp.zeros((len(coefs),) + eps.shape, eps.dtype)
+            )
+
         # Initialize output with current input (eps term)
         output = eps
 
         # Autoregressive component: sum(alpha[i] * y[t-i])
+        y_history = history("y_history", self.alpha)
         if len(self.alpha) > 0:
-            # Get previous outputs from AR buffer (placeholder initialization)
-            # Get current state; the buffer is built with return_state left at
-            # its default (False), so the call yields the array alone.
-            ar_history = cast(jnp.ndarray, self.ar_buffer(jnp.zeros_like(output)))
-
-            # Compute AR contribution
-            ar_contribution = jnp.sum(self.alpha * ar_history)
-            output = output + ar_contribution
+            output = output + jnp.tensordot(self.alpha, y_history.value, axes=1)
 
         # Moving average component: sum(beta[j] * eps[t-j])
+        eps_history = history("eps_history", self.beta)
         if len(self.beta) > 0:
-            # Get previous inputs from MA buffer
-            ma_history = cast(jnp.ndarray, self.ma_buffer(eps))
+            output = output + jnp.tensordot(self.beta, eps_history.value, axes=1)
 
-            # Compute MA contribution
-            ma_contribution = jnp.sum(self.beta * ma_history)
-            output = output + ma_contribution
+        # Handle NaN/Inf values
+        output = self.fill_nan_inf(output).astype(eps.dtype)
 
-        # Update AR buffer with current output
+        # Store current output and input for next iteration
         if len(self.alpha) > 0:
-            self.ar_buffer(output)  # Store current output for next iteration
-
-        # Handle NaN/Inf values
-        output = self.fill_nan_inf(output)
+            y_history.value = jnp.concatenate([output[None], y_history.value[:-1]])
+        if len(self.beta) > 0:
+            eps_history.value = jnp.concatenate([eps[None], eps_history.value[:-1]])
 
         return output
 
-- 
2.43.0


From 76a4f5f4f5527ca21ef61d0800fa80c214ef6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 18/58] fix: accept Callback objects as callbacks of gym_unroll

---
 src/wax/gym/gym_unroll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/gym/gym_unroll.py b/src/wax/gym/gym_unroll.py
index 142e576..e644616 100644
--- a/src/wax/gym/gym_unroll.py
+++ b/src/wax/gym/gym_unroll.py
@@ -15,7 +15,7 @@
 
 from collections import namedtuple
 
-from wax.gym.callbacks.callbacks import local_callbacks, unpack_callbacks
+from wax.gym.callbacks.callbacks import local_callbacks, normalize_callback, unpack_callbacks
 
 
 def gym_unroll(agent, env, obs=None, callbacks=None):
@@ -42,6 +42,9 @@ def gym_unroll(agent, env, obs=None, callbacks=None):
     """
     GymUnrollState = namedtuple("GymUnrollState", "rw, obs, action, done, info")
 
+    if callbacks is not None:
+        callbacks = [normalize_callback(callback) for callback in callbacks]
+
     with local_callbacks(callbacks) as callbacks:
         # unpack callbacks
         (
-- 
2.43.0


From fa56a6fa5d7282b7d3c55ba3956ab2468dbaf413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 19/58] fix: collect each leaf apart in unroll_stream with
 skip_first

---
 src/wax/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f72a0cb..eb5750f 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -302,7 +302,7 @@ def unroll_stream(
     # stream_scan
     def _init_outputs():
         if skip_first:
-            return [[]] * num_leaves
+            return [[] for _ in range(num_leaves)]
         else:
             return [[x] for x in obs_flat]
 
-- 
2.43.0


From 581c3a97fd528a26c758151d5d2690a27c27491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 20/58] fix: compare encoded integers with their sign

---
 src/wax/encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index ce6c11d..cf4a180 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -201,6 +201,8 @@ def datetime64_encoder(values: Any) -> Encoder:
 def less(t1, t2):
     h1, l1 = t1
     h2, l2 = t2
+    # the high words carry the sign
+    h1, h2 = (onp.array(h, dtype=onp.uint32).astype(onp.int32) for h in (h1, h2))
     if h1 < h2:
         return True
     elif h1 > h2:
-- 
2.43.0


From 74c6d93b0479f8dfd0089716a0ff6fdfcedcdc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 21/58] fix: encode datetime variables of any number of
 dimensions

---
 src/wax/encode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index cf4a180..2140a3c 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -190,10 +190,13 @@ def string_encoder(values: Any) -> Encoder:
 
 def datetime64_encoder(values: Any) -> Encoder:
     def encode(value):
-        return onp.stack(list(map(encode_datetime64, value)))
+        codes = [encode_datetime64(date) for date in onp.ravel(value)]
+        return onp.array(codes, dtype=onp.uint32).reshape(onp.shape(value) + (2,))
 
     def decode(code):
-        return onp.stack(list(map(decode_datetime64, [code[i] for i in range(len(code))])))
+        code = onp.asarray(code)
+        dates = [decode_datetime64(date_code) for date_code in code.reshape(-1, 2)]
+        return onp.array(dates, dtype="<M8[ns]").reshape(code.shape[:-1])
 
     return Encoder(encode, decode)
 
-- 
2.43.0


From c4e74e72c7fecee7b93e7bf13c4bcb0906697a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 22/58] fix: let a dataset with a scalar date or string be
 streamed

---
 src/wax/encode.py | 2 +-
 src/wax/stream.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index 2140a3c..ea72331 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -168,7 +168,7 @@ def string_encoder(values: Any) -> Encoder:
     ravel = False
     original_shape = None
 
-    if values.ndim > 1:
+    if values.ndim != 1:
         ravel = True
         original_shape = values.shape
         values = values.ravel()
diff --git a/src/wax/stream.py b/src/wax/stream.py
index eb5750f..517a9f6 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -509,6 +509,7 @@ class Stream:
         # Prepare np_data and np_index
         np_data, np_index, xs = self.trace_dataset(dataset)
         # encode values
+        np_data = {dim: onp.atleast_1d(var) for dim, var in np_data.items()}
         np_data = encode_dataset(encoders, np_data)
 
         # convert to jax
-- 
2.43.0


From feb2b0ec01f43d43c2d8f802012d90346fa773fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 23/58] fix: let a dataset with other date coordinates than its
 dimensions be streamed

---
 src/wax/stream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 517a9f6..edb10e3 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -169,7 +169,11 @@ def _get_unique_time_dim(dataset):
 
 
 def get_dataset_time_coords(dataset):
-    time_coords = {dim for dim, vals in dataset.coords.items() if vals.dtype.type is onp.datetime64}
+    time_coords = {
+        dim
+        for dim, vals in dataset.coords.items()
+        if vals.dtype.type is onp.datetime64 and dim in dataset.dims
+    }
     assert len(time_coords), "No time coordinate found"
     return time_coords
 
-- 
2.43.0


From 603cc2c4708bcf2817a8e1f411fb970ca8c2b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 24/58] fix: keep missing rows and columns of multi-indexed
 data frames in the accessor

---
 src/wax/accessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index b11eb73..31382d1 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -197,7 +197,10 @@ class StreamDataFrame(Stream):
             # avoid to stack the dataframe : its faster!
             dataarray = xr.DataArray(dataframe)
         else:
-            dataarray = dataframe.stack(list(range(dataframe.columns.nlevels))).to_xarray()
+            # keep the missing values: dropping them would drop steps and columns.
+            dataarray = dataframe.stack(
+                list(range(dataframe.columns.nlevels)), future_stack=True
+            ).to_xarray()
         dataset = dataarray.to_dataset(name="dataarray")
         schema = self.get_dataset_schema(dataset)
 
-- 
2.43.0


From a9856feb0752de76b9c63cd187827c1f6d0c5f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 25/58] fix: format the outputs of the accessors when the first
 step is skipped

---
 src/wax/accessors.py | 20 ++++++++++++--------
 src/wax/stream.py    | 17 +++++++++++++++++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 31382d1..5564b5d 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -74,12 +74,13 @@ class StreamDataset(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
             try:
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -137,15 +138,16 @@ class StreamDataArray(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -218,13 +220,14 @@ class StreamDataFrame(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
 
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -233,7 +236,7 @@ class StreamDataFrame(Stream):
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -295,15 +298,16 @@ class StreamSeries(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
         if self.return_state:
             return outputs, state
         else:
diff --git a/src/wax/stream.py b/src/wax/stream.py
index edb10e3..71bf7e6 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -485,6 +485,23 @@ class Stream:
         schema = DatasetSchema(coords=xdata.coords, encoders=encoders)
         return schema
 
+    def get_output_coords(
+        self, dataset: xr.Dataset, skip_first: bool = False
+    ) -> xr.core.coordinates.DatasetCoordinates:
+        """Coordinates of the outputs unrolled on a dataset.
+
+        Args:
+            dataset : dataset on which the transformation is applied
+            skip_first : if true, the first step of the local time has no output.
+
+        Returns:
+            Dataset coordinates
+        """
+        if skip_first:
+            local_time = self.get_local_time(dict.fromkeys(get_dataset_time_coords(dataset)))
+            dataset = dataset.isel({local_time: slice(1, None)})
+        return dataset.coords
+
     def get_encoders(self, dataset):
         schema = self.get_dataset_schema(dataset)
         return schema.encoders
-- 
2.43.0


From 6827c84e177c682d104cd3b2b26b280d6934e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 26/58] fix: read the dims of the formatted outputs as one leaf

---
 src/wax/format.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/wax/format.py b/src/wax/format.py
index 88ad843..10d7d88 100644
--- a/src/wax/format.py
+++ b/src/wax/format.py
@@ -20,7 +20,7 @@ import jax.numpy as jnp
 import numpy as onp
 import pandas as pd
 import xarray as xr
-from jax.tree_util import tree_flatten, tree_leaves, tree_map, tree_unflatten
+from jax.tree_util import tree_flatten, tree_map, tree_unflatten
 
 DatasetCoordinates = TypeVar("DatasetCoordinates")  # xr.core.coordinates.DatasetCoordinates
 
@@ -57,6 +57,11 @@ def _to_series(ref_coords, dataarray, dims):
     return series
 
 
+def _is_dims(format_dims):
+    """Says if a node of a dims specification is a sequence of dims names."""
+    return type(format_dims) in (tuple, list) and any(isinstance(dim, str) for dim in format_dims)
+
+
 def _get_dims_from_data(data):
     shape = onp.shape(data)
     dims = tuple(f"dim_{i}" for i in range(len(shape)))
@@ -76,9 +81,8 @@ def format_dataarray(ref_coords: DatasetCoordinates | None, data: Any, format_di
         Nested data structure with same treedef as input data and leaves converted in DataArrays.
     """
     data_flat, treedef = tree_flatten(data)
-    format_dims_flat, treedef_format = tree_flatten(format_dims)
+    format_dims_flat, treedef_format = tree_flatten(format_dims, is_leaf=_is_dims)
     if str(treedef) == str(treedef_format):
-        format_dims_flat = tree_leaves(format_dims_flat)
         vals = tuple(
             _to_dataarray(ref_coords, dataarray, dims)
             for dataarray, dims in zip(data_flat, format_dims_flat, strict=False)
@@ -129,7 +133,7 @@ def format_dataframe(
     if ref_coords is None:
         ref_coords = cast(DatasetCoordinates, {})
     data_flat, treedef = tree_flatten(data)
-    format_dims_flat, treedef_format = tree_flatten(format_dims)
+    format_dims_flat, treedef_format = tree_flatten(format_dims, is_leaf=_is_dims)
     if str(treedef) == str(treedef_format):
         vals = tuple(
             _to_dataframe(ref_coords, dataarray, dims, index_nlevels)
@@ -159,7 +163,7 @@ def format_series(ref_coords: DatasetCoordinates | None, data: Any, format_dims:
         Nested data structure with same treedef as input data and leaves converted in DataArrays.
     """
     data_flat, treedef = tree_flatten(data)
-    format_dims_flat, treedef_format = tree_flatten(format_dims)
+    format_dims_flat, treedef_format = tree_flatten(format_dims, is_leaf=_is_dims)
     if str(treedef) == str(treedef_format):
         vals = tuple(
             _to_series(ref_coords, dataarray, dims)
-- 
2.43.0


From cfab8a2f74ddd656c57df17c4ade12c051d509fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 27/58] fix: accept an array of dims to format several data
 frames

---
 src/wax/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/format.py b/src/wax/format.py
index 10d7d88..dbc2514 100644
--- a/src/wax/format.py
+++ b/src/wax/format.py
@@ -140,7 +140,7 @@ def format_dataframe(
             for dataarray, dims in zip(data_flat, format_dims_flat, strict=False)
         )
     else:
-        if not format_dims:
+        if format_dims is None or not len(format_dims):
             format_dims = _get_dims_from_data(data_flat[0])
         vals = tuple(
             _to_dataframe(ref_coords, dataarray, format_dims, index_nlevels)
-- 
2.43.0


From 2337fb792af5c61c841ab036a4d5e9de58e44f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 28/58] fix: return nested outputs of a dataset that are not a
 mapping of arrays as they are

---
 src/wax/format.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wax/format.py b/src/wax/format.py
index dbc2514..9fe7fda 100644
--- a/src/wax/format.py
+++ b/src/wax/format.py
@@ -106,10 +106,9 @@ def format_dataset(ref_coords: DatasetCoordinates | None, data: Any, format_dims
         Nested data structure with same treedef as input data and leaves converted in DataArrays.
     """
     output = format_dataarray(ref_coords, data, format_dims)
-    try:
+    if isinstance(output, dict) and all(isinstance(x, xr.DataArray) for x in output.values()):
         return xr.Dataset(output)
-    except TypeError:
-        return output
+    return output
 
 
 def format_dataframe(
-- 
2.43.0


From f9a4948b9317b2c1f11996653914a99fcf32572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 29/58] fix: pass the parameters to the optax transformation

---
 src/wax/modules/optax_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/optax_optimizer.py b/src/wax/modules/optax_optimizer.py
index d342bf6..1917cc4 100644
--- a/src/wax/modules/optax_optimizer.py
+++ b/src/wax/modules/optax_optimizer.py
@@ -29,7 +29,7 @@ class OptaxOptimizer(hk.Module):
 
     def __call__(self, params, grads):
         opt_state = hk.get_state("opt_state", [], init=lambda *_: self.opt.init(params))
-        updates, opt_state = self.opt.update(grads, opt_state)
+        updates, opt_state = self.opt.update(grads, opt_state, params)
         params = optax.apply_updates(params, updates)
         hk.set_state("opt_state", opt_state)
         return params
-- 
2.43.0


From dc70ee6b3e41c2ab110b041af6935b4ecebd7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 30/58] fix: get the initial parameters of functions with a
 state

---
 src/wax/modules/update_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/modules/update_params.py b/src/wax/modules/update_params.py
index d7397f2..869dd4a 100644
--- a/src/wax/modules/update_params.py
+++ b/src/wax/modules/update_params.py
@@ -71,8 +71,8 @@ def get_init_params(
     **kwargs,
 ):
     init_rng = hk.next_rng_key() if hk.running_init() else None
-    init, _ = hk.transform(func)
-    params = init(init_rng, *args, **kwargs)
+    init, _ = hk.transform_with_state(func)
+    params, _ = init(init_rng, *args, **kwargs)
 
     if params_predicate:
         trainable_params: Any
-- 
2.43.0


From 2fdda88b841857be65593f87cd4b61c888bf10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 31/58] fix: take all parameters as trainable without a
 predicate

---
 src/wax/modules/update_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/update_params.py b/src/wax/modules/update_params.py
index 869dd4a..7dc9d3c 100644
--- a/src/wax/modules/update_params.py
+++ b/src/wax/modules/update_params.py
@@ -36,7 +36,7 @@ class UpdateParams(hk.Module):
     ):
         super().__init__(name=name)
         self.func = func
-        self.params_predicate = params_predicate
+        self.params_predicate = params_predicate or pass_all_predicate
 
     def __call__(self, trainable_params, *args, **kwargs):
         init, apply = hk.transform_with_state(self.func)
-- 
2.43.0


From 554de5b57523d25e2103b00b35119018c2f3ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 32/58] fix: let the Flax optimizers run without a predicate

---
 src/wax/flax/modules/online_optimizer.py | 12 +++++-------
 src/wax/flax/modules/update_params.py    | 16 ++++++----------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index b09e228..3cd77fe 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -22,6 +22,8 @@ import jax
 import jax.numpy as jnp
 from jax.tree_util import tree_map
 
+from wax.predicate import pass_all_predicate
+
 from .optax_optimizer import OptaxOptimizer
 
 
@@ -51,12 +53,6 @@ class OnlineOptimizer(nn.Module):
 
     def setup(self):
         """Setup the OnlineOptimizer module."""
-        # Set default predicate if none provided
-        if self.params_predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.params_predicate = pass_all_predicate
-
         # Wrap optimizer if it's not already an OptaxOptimizer
         if not isinstance(self.opt, OptaxOptimizer):
             if hasattr(self.opt, "init") and hasattr(self.opt, "update"):
@@ -123,6 +119,8 @@ class OnlineOptimizer(nn.Module):
             params = current_vars
             state = {}
 
+        predicate = self.params_predicate or pass_all_predicate
+
         # Partition parameters into trainable and non-trainable
         def partition_params(params):
             trainable = {}
@@ -134,7 +132,7 @@ class OnlineOptimizer(nn.Module):
 
             for key, value in flat_params.items():
                 path = key.split("/")
-                if self.params_predicate(path[0] if path else "", path[-1] if path else "", value):
+                if predicate(path[0] if path else "", path[-1] if path else "", value):
                     trainable[key] = value
                 else:
                     non_trainable[key] = value
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 7d39d2e..22c3bb0 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -20,6 +20,8 @@ import flax.linen as nn
 import jax
 from flax.traverse_util import flatten_dict, unflatten_dict
 
+from wax.predicate import pass_all_predicate
+
 
 class UpdateParams(nn.Module):
     """Flax-based module for separating trainable from non-trainable parameters.
@@ -31,14 +33,6 @@ class UpdateParams(nn.Module):
     fun: Callable  # Function to wrap
     predicate: Callable | None = None  # Predicate to determine trainable params
 
-    def setup(self):
-        """Setup the UpdateParams module."""
-        # Set default predicate if none provided
-        if self.predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.predicate = pass_all_predicate
-
     @nn.compact
     def __call__(self, *args, **kwargs) -> Any:
         """Apply function with parameter partitioning.
@@ -78,9 +72,11 @@ class UpdateParams(nn.Module):
         Returns:
             Tuple of (trainable_params, non_trainable_params)
         """
+        predicate = self.predicate or pass_all_predicate
+
         if not isinstance(params, dict):
             # If params is not a dict, treat as single parameter
-            if self.predicate("", "", params):
+            if predicate("", "", params):
                 return params, {}
             else:
                 return {}, params
@@ -98,7 +94,7 @@ class UpdateParams(nn.Module):
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
-            if self.predicate(module_name, param_name, value):
+            if predicate(module_name, param_name, value):
                 trainable[key] = value
             else:
                 non_trainable[key] = value
-- 
2.43.0


From 29b4192996cf04da7c8777b371a22e6c1f07ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 33/58] fix: keep the non trainable parameters beside the
 trainable ones in the Flax optimizers

---
 src/wax/flax/modules/online_optimizer.py | 25 ++++++++++--------------
 src/wax/flax/modules/update_params.py    | 22 ++++++++++-----------
 2 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index 3cd77fe..74a2e82 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -20,6 +20,7 @@ from typing import Any
 import flax.linen as nn
 import jax
 import jax.numpy as jnp
+from flax.traverse_util import flatten_dict, unflatten_dict
 from jax.tree_util import tree_map
 
 from wax.predicate import pass_all_predicate
@@ -126,27 +127,23 @@ class OnlineOptimizer(nn.Module):
             trainable = {}
             non_trainable = {}
 
-            from flax.traverse_util import flatten_dict, unflatten_dict
-
-            flat_params = flatten_dict(params, sep="/")
-
-            for key, value in flat_params.items():
-                path = key.split("/")
+            for path, value in flatten_dict(params).items():
                 if predicate(path[0] if path else "", path[-1] if path else "", value):
-                    trainable[key] = value
+                    trainable[path] = value
                 else:
-                    non_trainable[key] = value
+                    non_trainable[path] = value
+
+            return unflatten_dict(trainable), unflatten_dict(non_trainable)
 
-            return unflatten_dict(trainable, sep="/"), unflatten_dict(non_trainable, sep="/")
+        def merge_params(trainable, non_trainable):
+            return unflatten_dict({**flatten_dict(non_trainable), **flatten_dict(trainable)})
 
         trainable_params, non_trainable_params = partition_params(params)
 
         # Define loss function for gradient computation
         def loss_fn(trainable_params):
             # Merge trainable and non-trainable params
-            merged_params = {}
-            merged_params.update(non_trainable_params)
-            merged_params.update(trainable_params)
+            merged_params = merge_params(trainable_params, non_trainable_params)
 
             # Compute model output
             result = model_fn(merged_params, state, *args, **kwargs)
@@ -182,9 +179,7 @@ class OnlineOptimizer(nn.Module):
             updated_trainable_params = self.project_params(updated_trainable_params)
 
         # Merge back updated parameters
-        updated_params = {}
-        updated_params.update(non_trainable_params)
-        updated_params.update(updated_trainable_params)
+        updated_params = merge_params(updated_trainable_params, non_trainable_params)
 
         # Update model variables
         if "params" in current_vars:
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 22c3bb0..1c89f3a 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -82,26 +82,25 @@ class UpdateParams(nn.Module):
                 return {}, params
 
         # Flatten parameters for easier processing
-        flat_params = flatten_dict(params, sep="/")
+        flat_params = flatten_dict(params)
 
         trainable = {}
         non_trainable = {}
 
-        for key, value in flat_params.items():
-            # Parse the key to extract module and parameter names
-            path_parts = key.split("/")
+        for path_parts, value in flat_params.items():
+            # Extract module and parameter names from the path
             module_name = path_parts[0] if len(path_parts) > 0 else ""
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
             if predicate(module_name, param_name, value):
-                trainable[key] = value
+                trainable[path_parts] = value
             else:
-                non_trainable[key] = value
+                non_trainable[path_parts] = value
 
         # Unflatten the dictionaries
-        trainable_params = unflatten_dict(trainable, sep="/")
-        non_trainable_params = unflatten_dict(non_trainable, sep="/")
+        trainable_params = unflatten_dict(trainable)
+        non_trainable_params = unflatten_dict(non_trainable)
 
         return trainable_params, non_trainable_params
 
@@ -126,10 +125,9 @@ class UpdateParams(nn.Module):
 
         # For dictionaries, merge recursively
         if isinstance(trainable_params, dict) and isinstance(non_trainable_params, dict):
-            result = {}
-            result.update(non_trainable_params)
-            result.update(trainable_params)
-            return result
+            return unflatten_dict(
+                {**flatten_dict(non_trainable_params), **flatten_dict(trainable_params)}
+            )
 
         # For other types, prefer trainable parameters
         return trainable_params
-- 
2.43.0


From df9e79b9bdeec2270cded7313bb0551ef2744947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 34/58] fix: thread the state of the model through the Flax
 OnlineOptimizer

---
 src/wax/flax/modules/online_optimizer.py | 29 +++++++++++++-----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index 74a2e82..82198a2 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -80,9 +80,8 @@ class OnlineOptimizer(nn.Module):
         # name ("params", "state", ...); empty until the model has been initialized.
         model_vars: nn.Variable[dict[str, Any]] = self.variable("model_vars", "vars", lambda: {})
 
-        # Check if model is a TransformedWithState or regular function
-        if hasattr(self.model, "init") and hasattr(self.model, "apply"):
-            # It's a TransformedWithState
+        # Check if model is a Flax module, a TransformedWithState or a regular function
+        if isinstance(self.model, nn.Module):
             if not model_vars.value:
                 # Initialize model
                 dummy_rng = jax.random.PRNGKey(0)
@@ -91,16 +90,17 @@ class OnlineOptimizer(nn.Module):
 
             def model_fn(params, state, *args, **kwargs):
                 vars_dict = {"params": params, **state}
-                result = self.model.apply(vars_dict, *args, **kwargs)
-                return result
+                return self.model.apply(vars_dict, *args, mutable=list(state), **kwargs)
 
         else:
-            # It's a regular function - need to transform it
             import haiku as hk
 
-            @hk.transform_with_state
-            def wrapped_model(*args, **kwargs):
-                return self.model(*args, **kwargs)
+            # A regular function needs to be transformed
+            wrapped_model = (
+                self.model
+                if isinstance(self.model, hk.TransformedWithState)
+                else hk.transform_with_state(self.model)
+            )
 
             if not model_vars.value:
                 dummy_rng = jax.random.PRNGKey(0)
@@ -108,7 +108,10 @@ class OnlineOptimizer(nn.Module):
                 model_vars.value = {"params": params, "state": state}
 
             def model_fn(params, state, *args, **kwargs):
-                return wrapped_model.apply(params, state, jax.random.PRNGKey(0), *args, **kwargs)
+                result, new_state = wrapped_model.apply(
+                    params, state["state"], jax.random.PRNGKey(0), *args, **kwargs
+                )
+                return result, {"state": new_state}
 
         # Extract current parameters and state
         current_vars = model_vars.value
@@ -146,7 +149,7 @@ class OnlineOptimizer(nn.Module):
             merged_params = merge_params(trainable_params, non_trainable_params)
 
             # Compute model output
-            result = model_fn(merged_params, state, *args, **kwargs)
+            result, new_state = model_fn(merged_params, state, *args, **kwargs)
 
             # Handle different return types
             if isinstance(result, tuple):
@@ -163,10 +166,10 @@ class OnlineOptimizer(nn.Module):
             if self.regularize_loss is not None:
                 loss = self.regularize_loss(loss, merged_params, aux)
 
-            return loss, aux
+            return loss, (aux, new_state)
 
         # Compute gradients
-        (loss, aux), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
+        (loss, (aux, state)), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
 
         # Handle NaN gradients
         grads = tree_map(lambda x: jnp.nan_to_num(x), grads)
-- 
2.43.0


From e85af00858ac4320d699d34917f6ecdf51a55030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 35/58] fix: keep the state of the function out of the
 parameters in the Flax FuncOptimizer

---
 src/wax/flax/modules/func_optimizer.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/wax/flax/modules/func_optimizer.py b/src/wax/flax/modules/func_optimizer.py
index 9106873..dd46c59 100644
--- a/src/wax/flax/modules/func_optimizer.py
+++ b/src/wax/flax/modules/func_optimizer.py
@@ -71,13 +71,19 @@ class FuncOptimizer(nn.Module):
             "trainable_params", "params", lambda: {}
         )
 
+        # State of the function (its collections other than the parameters)
+        fun_state: nn.Variable[dict[str, Any]] = self.variable("fun_state", "state", lambda: {})
+
         # Initialize function if needed
         if not trainable_params.value:
             # Try to initialize parameters from the function
             if hasattr(self.fun, "init"):
                 # Function is a Flax module
                 rng = jax.random.PRNGKey(0)
-                init_params = self.fun.init(rng, *args, **kwargs)
+                init_state = dict(self.fun.init(rng, *args, **kwargs))
+                init_params = {"params": init_state.pop("params", {})}
+                if not fun_state.value:
+                    fun_state.value = init_state
 
                 # Partition parameters
                 train_params, non_train_params = self.update_params.partition_params(init_params)
@@ -106,10 +112,15 @@ class FuncOptimizer(nn.Module):
             # Apply function
             if hasattr(self.fun, "apply"):
                 # Function is a Flax module
-                result = self.fun.apply(merged_params, *args, **kwargs)
+                result, new_state = self.fun.apply(
+                    {**merged_params, **fun_state.value},
+                    *args,
+                    mutable=list(fun_state.value),
+                    **kwargs,
+                )
             else:
                 # Function is a regular callable
-                result = self.fun(*args, **kwargs)
+                result, new_state = self.fun(*args, **kwargs), {}
 
             # Handle auxiliary data
             if self.has_aux:
@@ -123,11 +134,11 @@ class FuncOptimizer(nn.Module):
                 loss = result
                 aux = None
 
-            return loss, aux
+            return loss, (aux, new_state)
 
         # Compute gradients
         if current_trainable:
-            (loss, aux), grads = jax.value_and_grad(loss_fn, has_aux=True)(current_trainable)
+            (loss, (aux, new_state)), grads = jax.value_and_grad(loss_fn, has_aux=True)(current_trainable)
 
             # Handle NaN/Inf gradients (fill with zeros)
             grads = tree_map(lambda x: self.fill_nan_inf(x), grads)
@@ -139,10 +150,12 @@ class FuncOptimizer(nn.Module):
             trainable_params.value = updated_params
         else:
             # No trainable parameters, just evaluate function
-            loss, aux = loss_fn({})
+            loss, (aux, new_state) = loss_fn({})
             grads = {}
             opt_info = None
 
+        fun_state.value = dict(new_state)
+
         # Return function output and optimization info
         if self.has_aux:
             return (loss, aux), grads, opt_info
-- 
2.43.0


From 48039777119550a4e13e142b40d0906d46521f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:46 +0000
Subject: [PATCH 36/58] fix: let the Flax OnlineSupervisedLearner learn

---
 .../flax/modules/online_supervised_learner.py | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/modules/online_supervised_learner.py b/src/wax/flax/modules/online_supervised_learner.py
index 38651a7..88107b9 100644
--- a/src/wax/flax/modules/online_supervised_learner.py
+++ b/src/wax/flax/modules/online_supervised_learner.py
@@ -22,6 +22,19 @@ import jax.numpy as jnp
 from .func_optimizer import FuncOptimizer
 
 
+class ModelLoss(nn.Module):
+    """Module that applies a model and computes the loss of its predictions."""
+
+    model: Callable  # Model function/module
+    loss_fn: Callable  # Loss function
+
+    def __call__(self, x: jnp.ndarray, y: jnp.ndarray) -> tuple[jnp.ndarray, Any]:
+        predictions = self.model(x)
+
+        # Return loss and predictions as auxiliary data
+        return self.loss_fn(predictions, y), predictions
+
+
 class OnlineSupervisedLearner(nn.Module):
     """Flax-based online supervised learning module.
 
@@ -37,21 +50,9 @@ class OnlineSupervisedLearner(nn.Module):
     def setup(self):
         """Setup the OnlineSupervisedLearner module."""
 
-        # Create a combined function that applies model and computes loss
-        def model_loss_fn(x, y):
-            """Combined model and loss function."""
-            # Apply model to get predictions
-            predictions = self.model(x)
-
-            # Compute loss
-            loss = self.loss_fn(predictions, y)
-
-            # Return loss and predictions as auxiliary data
-            return loss, predictions
-
         # Create function optimizer
         self.func_optimizer = FuncOptimizer(
-            fun=model_loss_fn,
+            fun=ModelLoss(model=self.model, loss_fn=self.loss_fn),
             opt=self.opt,
             has_aux=True,  # Returns predictions as auxiliary data
             params_predicate=self.params_predicate,
-- 
2.43.0


From b046c9577fa6be9a79eb0465220137a769d263e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 37/58] fix: return the downsampled buffer in order between two
 samples

---
 src/wax/flax/modules/compressed_buffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index b43effa..c20fbe3 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -67,6 +67,12 @@ from .ewma import EWMA
 CompressionStrategy = Literal["ewma", "quantile", "downsample", "sketching", "none"]
 
 
+def _ordered(buffer: Buffer) -> jnp.ndarray:
+    """Contents of a buffer, oldest first, without recording anything."""
+    state = buffer.variables["state"]
+    return jnp.roll(state["buffer"], -(state["write_idx"] % buffer.maxlen), axis=0)
+
+
 class CompressedBuffer(nn.Module):
     """Buffer with compression for memory-efficient long sequence storage.
 
@@ -253,9 +259,7 @@ class CompressedBuffer(nn.Module):
             downsampled_data = cast(jnp.ndarray, self.downsampled_buffer(x))
         else:
             # Return current buffer state without update
-            downsampled_data = cast(
-                jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"]
-            )
+            downsampled_data = _ordered(self.downsampled_buffer)
 
         self.sample_counter.value = counter + 1
         return downsampled_data
-- 
2.43.0


From badee42fe06a62c1143267414143faa42f23c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 38/58] fix: return the current state of every level of the
 HierarchicalBuffer between two updates

---
 src/wax/flax/modules/compressed_buffer.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index c20fbe3..c4af10b 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -204,6 +204,19 @@ class CompressedBuffer(nn.Module):
         elif self.compression == "none":
             return self._no_compression_update(x)
 
+    def current(self) -> jnp.ndarray:
+        """Return the current state without adding an element."""
+        if self.compression == "ewma":
+            return cast(jnp.ndarray, self.compressed_state.value)
+        elif self.compression == "quantile":
+            return self.quantile_estimates.value
+        elif self.compression == "downsample":
+            return _ordered(self.downsampled_buffer)
+        elif self.compression == "sketching":
+            return jnp.min(self.sketch.value, axis=0)
+        else:
+            return _ordered(self.uncompressed_buffer)
+
     def _ewma_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update EWMA compressed representation."""
         # Update EWMA
@@ -404,10 +417,7 @@ class HierarchicalBuffer(nn.Module):
             # Return current medium buffer state
             # Step 0 always updates (0 % 5 == 0), so the stored state is an array
             # by the time this branch is reached, never the initial Python scalar.
-            if hasattr(self.medium_buffer, "compressed_state"):
-                medium_data = cast(jnp.ndarray, self.medium_buffer.compressed_state.value)
-            else:
-                medium_data = jnp.array(0.0)
+            medium_data = self.medium_buffer.current()
 
         # Update long buffer every many steps
         long_counter = self.long_update_counter.value
@@ -416,10 +426,7 @@ class HierarchicalBuffer(nn.Module):
         else:
             # Return current long buffer state
             # Same reasoning as the medium level: step 0 always updates.
-            if hasattr(self.long_buffer, "compressed_state"):
-                long_data = cast(jnp.ndarray, self.long_buffer.compressed_state.value)
-            else:
-                long_data = jnp.array(0.0)
+            long_data = self.long_buffer.current()
 
         # Update counters
         self.medium_update_counter.value = medium_counter + 1
-- 
2.43.0


From 564732e6e836ecb6199c815c19cdf0e56a01d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 39/58] fix: count the memory of sketches and of the smallest
 downsampled buffers

---
 src/wax/flax/modules/compressed_buffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index c4af10b..40ddb73 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -329,7 +329,7 @@ class CompressedBuffer(nn.Module):
         elif self.compression == "downsample":
             # Downsampled buffer
             factor = params.get("factor", 2)
-            buffer_size = (self.maxlen // factor) * 8
+            buffer_size = max(1, self.maxlen // factor) * 8
             return {"buffer": buffer_size, "counter": 4, "total": buffer_size + 4}
         elif self.compression == "sketching":
             # Sketch matrix + hash params
@@ -446,7 +446,9 @@ class HierarchicalBuffer(nn.Module):
                 min(self.medium_maxlen, 1000) * 8 + 5 * 8 + 4
             )  # buffer + estimates + counter
         elif self.medium_compression == "downsample":
-            medium_usage = (self.medium_maxlen // 2) * 8 + 4  # downsampled buffer + counter
+            medium_usage = max(1, self.medium_maxlen // 2) * 8 + 4  # downsampled buffer + counter
+        elif self.medium_compression == "sketching":
+            medium_usage = 4 * 1024 * 8 + 4 * 2 * 4  # sketch + hash params
         else:
             medium_usage = self.medium_maxlen * 8  # fallback
 
@@ -456,7 +458,9 @@ class HierarchicalBuffer(nn.Module):
         elif self.long_compression == "quantile":
             long_usage = min(self.long_maxlen, 1000) * 8 + 5 * 8 + 4  # buffer + estimates + counter
         elif self.long_compression == "downsample":
-            long_usage = (self.long_maxlen // 2) * 8 + 4  # downsampled buffer + counter
+            long_usage = max(1, self.long_maxlen // 2) * 8 + 4  # downsampled buffer + counter
+        elif self.long_compression == "sketching":
+            long_usage = 4 * 1024 * 8 + 4 * 2 * 4  # sketch + hash params
         else:
             long_usage = self.long_maxlen * 8  # fallback
 
-- 
2.43.0


From 8c3141d07d5dccc143e7d3c32b002c8d9536760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 40/58] fix: numpy values take part in the embeddings of states
 and in hierarchical influence

---
 src/wax/flax/core/advanced_state_patterns.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/core/advanced_state_patterns.py b/src/wax/flax/core/advanced_state_patterns.py
index d769df6..c2ffc36 100644
--- a/src/wax/flax/core/advanced_state_patterns.py
+++ b/src/wax/flax/core/advanced_state_patterns.py
@@ -24,6 +24,7 @@ from collections.abc import Callable, Mapping
 from typing import Any, TypeVar
 
 import jax.numpy as jnp
+import numpy as np
 from flax import linen as nn
 
 from .streaming_transforms import StreamingTransform, streaming_transform_with_state
@@ -33,6 +34,9 @@ StateModule = TypeVar("StateModule", bound=nn.Module)
 StateName = str
 StateValue = Any
 
+# Values that take part in embeddings and in hierarchical influence
+NUMERIC_TYPES = (int, float, jnp.ndarray, np.ndarray, np.number)
+
 
 class HierarchicalStateMachine(nn.Module):
     """Hierarchical state machine for coordinated multi-level state management.
@@ -192,7 +196,7 @@ class HierarchicalStateMachine(nn.Module):
 
             influenced = lower_output.copy()
             for key in influenced:
-                if key in higher_output and isinstance(influenced[key], int | float | jnp.ndarray):
+                if key in higher_output and isinstance(influenced[key], NUMERIC_TYPES):
                     # Blend with higher-level signal
                     influenced[key] = (1 - influence_factor) * influenced[
                         key
@@ -297,7 +301,7 @@ class AttentionBasedStateSelector(nn.Module):
             state_vector = jnp.concatenate(
                 [
                     jnp.atleast_1d(v)
-                    if isinstance(v, int | float | jnp.ndarray)
+                    if isinstance(v, NUMERIC_TYPES)
                     else jnp.array([0.0])
                     for v in current_state.values()
                 ]
@@ -350,7 +354,7 @@ class AttentionBasedStateSelector(nn.Module):
             state_vector = jnp.concatenate(
                 [
                     jnp.atleast_1d(v)
-                    if isinstance(v, int | float | jnp.ndarray)
+                    if isinstance(v, NUMERIC_TYPES)
                     else jnp.array([0.0])
                     for v in current_state.values()
                 ]
-- 
2.43.0


From 23c4cd0ed40d281c57fa5032d0653a924f0261d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 41/58] fix: the snapshots of the debugger are copies of nested
 and numpy states

---
 src/wax/flax/debug/debugger.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 85de486..7086ddc 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -41,6 +41,7 @@ from typing import Any, Protocol
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 
 class DebugCondition(Protocol):
@@ -131,10 +132,10 @@ class DebugHook:
     def _deep_copy_state(self, state: Any) -> Any:
         """Create a deep copy of state for debugging."""
         try:
-            if hasattr(state, "copy"):
+            if isinstance(state, (dict, list, tuple)):
+                return self._safe_copy(state)
+            elif hasattr(state, "copy"):
                 return state.copy()
-            elif isinstance(state, dict):
-                return {k: self._safe_copy(v) for k, v in state.items()}
             else:
                 return state
         except Exception:
@@ -145,6 +146,8 @@ class DebugHook:
         try:
             if isinstance(data, jnp.ndarray):
                 return jnp.copy(data)
+            elif isinstance(data, np.ndarray):
+                return np.copy(data)
             elif isinstance(data, (list, tuple)):
                 return type(data)(self._safe_copy(item) for item in data)
             elif isinstance(data, dict):
@@ -327,6 +330,8 @@ class StreamingDebugger:
         try:
             if isinstance(tree, jnp.ndarray):
                 return jnp.copy(tree)
+            elif isinstance(tree, np.ndarray):
+                return np.copy(tree)
             elif isinstance(tree, dict):
                 return {k: self._safe_copy_tree(v) for k, v in tree.items()}
             elif isinstance(tree, (list, tuple)):
-- 
2.43.0


From 93b38eb958247a4492ec8316ffd9d1505865454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 42/58] fix: the snapshots of the debugger keep named tuples

---
 src/wax/flax/debug/debugger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 7086ddc..fe060c9 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -148,6 +148,8 @@ class DebugHook:
                 return jnp.copy(data)
             elif isinstance(data, np.ndarray):
                 return np.copy(data)
+            elif isinstance(data, tuple) and hasattr(data, "_fields"):
+                return type(data)(*(self._safe_copy(item) for item in data))
             elif isinstance(data, (list, tuple)):
                 return type(data)(self._safe_copy(item) for item in data)
             elif isinstance(data, dict):
@@ -334,6 +336,8 @@ class StreamingDebugger:
                 return np.copy(tree)
             elif isinstance(tree, dict):
                 return {k: self._safe_copy_tree(v) for k, v in tree.items()}
+            elif isinstance(tree, tuple) and hasattr(tree, "_fields"):
+                return type(tree)(*(self._safe_copy_tree(item) for item in tree))
             elif isinstance(tree, (list, tuple)):
                 return type(tree)(self._safe_copy_tree(item) for item in tree)
             else:
-- 
2.43.0


From 6567e56fdb8705b1e68d703fb451bd80965c91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 43/58] fix: a performance monitor only judges the step it is
 asked about

---
 src/wax/flax/debug/debugger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index fe060c9..a20cdbf 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -258,8 +258,10 @@ class StreamingDebugger:
         """Add performance monitoring hook."""
 
         def slow_condition(step, state, input_data, output):
-            execution_times = self.performance_data.get("execution_time", [])
-            return execution_times and execution_times[-1] * 1000 > threshold_ms
+            steps = self.performance_data.get("step", [])
+            if not steps or steps[-1] != step:
+                return False  # No execution time is known for this step
+            return self.performance_data["execution_time"][-1] * 1000 > threshold_ms
 
         hook = DebugHook(name=f"perf_{name}", condition=slow_condition, action="alert")
         return self.add_hook(hook)
-- 
2.43.0


From 1bda2bfeb29cae62966bea8d66dfef9982d1557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 44/58] fix: debug events keep an execution time of zero

---
 src/wax/flax/debug/debugger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index a20cdbf..3670cc8 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -294,7 +294,9 @@ class StreamingDebugger:
             for hook in self.hooks.values():
                 if hook.check_condition(self.current_step, state, input_data, output):
                     metadata = {
-                        "execution_time_ms": execution_time * 1000 if execution_time else None,
+                        "execution_time_ms": execution_time * 1000
+                        if execution_time is not None
+                        else None,
                         "session_time": time.time() - self.session_start_time,
                     }
                     hook.trigger(
-- 
2.43.0


From 14d6d6dfd5ad29dc5d63a1237423211464b52369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 45/58] fix: the state change detector looks into FrozenDict
 states

---
 src/wax/flax/debug/debugger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 3670cc8..6d6dd17 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -35,7 +35,7 @@ import threading
 import time
 import traceback
 from collections import defaultdict, deque
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from dataclasses import dataclass
 from typing import Any, Protocol
 
@@ -528,7 +528,7 @@ def state_change_detector(field: str, tolerance: float = 1e-6) -> DebugCondition
         nonlocal last_value
 
         try:
-            if isinstance(state, dict) and field in state:
+            if isinstance(state, Mapping) and field in state:
                 current_value = state[field]
             else:
                 return False
-- 
2.43.0


From 6367261301dae1b5f9bc3c5a82aade6a0886a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 46/58] fix: debugging decorators without a module name accept
 streaming transforms

---
 src/wax/flax/debug/debugger.py       | 2 +-
 src/wax/flax/debug/memory_tracker.py | 2 +-
 src/wax/flax/debug/profiler.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 6d6dd17..bfd3f4b 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -442,7 +442,7 @@ def debug_streaming(
         debugger = StreamingDebugger()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", type(fn).__name__)
 
         # Create a wrapper that preserves the original function interface
         class DebugWrapper:
diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 2ec8a9d..df91ee5 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -660,7 +660,7 @@ def track_memory_usage(
         tracker = MemoryTracker()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", type(fn).__name__)
 
         # Create a wrapper that preserves the original function interface
         class MemoryWrapper:
diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index f229222..4e46ec1 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -523,7 +523,7 @@ def profile_streaming(
         profiler = StreamingProfiler()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", type(fn).__name__)
 
         # Create a wrapper that preserves the original function interface
         class ProfileWrapper:
-- 
2.43.0


From b34c45a460d27932b1ef88d2430055caf5be4439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 47/58] fix: the profiling decorator records each call once

---
 src/wax/flax/debug/profiler.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 4e46ec1..ec0c89f 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -480,6 +480,8 @@ class ProfilerContext:
         self.module_name = module_name
         self.start_time = None
         self.jit_compilation = False
+        self.input_data: Any = None
+        self.output_data: Any = None
 
     def __enter__(self):
         self.start_time = time.time()
@@ -491,6 +493,8 @@ class ProfilerContext:
             self.profiler.record_metrics(
                 module_name=self.module_name,
                 execution_time=execution_time,
+                input_data=self.input_data,
+                output_data=self.output_data,
                 jit_compilation=self.jit_compilation,
             )
 
@@ -543,21 +547,13 @@ def profile_streaming(
                 def profile_apply(params, state, rng, *args, **kwargs):
                     with profiler.start_step(actual_module_name) as ctx:
                         # Track input data if detailed tracking enabled
-                        input_data = args[0] if args and enable_detailed_tracking else None
+                        ctx.input_data = args[0] if args and enable_detailed_tracking else None
 
                         # Execute function
                         result = original_apply(params, state, rng, *args, **kwargs)
 
                         # Track output data if detailed tracking enabled
-                        output_data = result if enable_detailed_tracking else None
-
-                        # Record additional context
-                        ctx.profiler.record_metrics(
-                            module_name=actual_module_name,
-                            execution_time=0,  # Will be set by context manager
-                            input_data=input_data,
-                            output_data=output_data,
-                        )
+                        ctx.output_data = result if enable_detailed_tracking else None
 
                         return result
 
-- 
2.43.0


From f3979b045cd5da08136824a11c1086fc06df9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 48/58] fix: finalized profiles keep their bottlenecks

---
 src/wax/flax/debug/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index ec0c89f..bd83a77 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -435,7 +435,7 @@ class StreamingProfiler:
                 memory_stats = {}
 
             # Collect bottlenecks
-            bottlenecks = getattr(self, "_bottlenecks", [])
+            bottlenecks = list(getattr(self, "_bottlenecks", []))
 
             # Generate recommendations
             recommendations = self.generate_optimization_recommendations()
-- 
2.43.0


From a1a40e6c021873d80579ae25bdaffbfbf645e477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 49/58] fix: report on a profile without data

---
 src/wax/flax/debug/profiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index bd83a77..3800275 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -571,6 +571,9 @@ def create_performance_report(profile_result: ProfileResult) -> str:
     """Create a human-readable performance report."""
     summary = profile_result.get_summary()
 
+    if "error" in summary:
+        return f"Performance Report Error: {summary['error']}"
+
     report = []
     report.append("🔍 WAX-ML Streaming Performance Report")
     report.append("=" * 50)
-- 
2.43.0


From ce8bcde8514ed9d88f6ae50e9e0871f646bb3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 50/58] fix: the profiler counts the size of numpy arrays and
 FrozenDict states

---
 src/wax/flax/debug/profiler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 3800275..29a78bb 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -37,12 +37,11 @@ import statistics
 import threading
 import time
 from collections import defaultdict, deque
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from dataclasses import dataclass, field
 from typing import Any
 
 import jax
-import jax.numpy as jnp
 import psutil
 
 
@@ -266,11 +265,11 @@ class StreamingProfiler:
         try:
             if data is None:
                 return 0
-            elif isinstance(data, jnp.ndarray):
+            elif hasattr(data, "nbytes"):
                 return data.nbytes
             elif isinstance(data, (list, tuple)):
                 return sum(self._calculate_data_size(item) for item in data)
-            elif isinstance(data, dict):
+            elif isinstance(data, Mapping):
                 return sum(self._calculate_data_size(v) for v in data.values())
             elif isinstance(data, (int, float)):
                 return 8  # Approximate size
-- 
2.43.0


From 65e226b3f9164edfa6167b31f79a99434aceb8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 51/58] fix: the memory tracker looks into FrozenDict states

---
 src/wax/flax/debug/memory_tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index df91ee5..12aeead 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -40,7 +40,7 @@ import time
 import tracemalloc
 import weakref
 from collections import defaultdict, deque
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from dataclasses import dataclass
 from typing import Any
 
@@ -323,7 +323,7 @@ class MemoryTracker:
         buffers_mb = 0.0
 
         try:
-            if isinstance(state, dict):
+            if isinstance(state, Mapping):
                 # Handle Flax variable collections
                 if "params" in state:
                     parameters_mb = self._calculate_tree_memory(state["params"])
-- 
2.43.0


From 8c819e855637a4e9fc2747192b040d5b7d63638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 52/58] fix: the memory tracker measures growth per step

---
 src/wax/flax/debug/memory_tracker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 12aeead..1c18ef7 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -390,7 +390,7 @@ class MemoryTracker:
 
         if len(memory_values) >= 3:
             # Simple linear regression to detect trend
-            x_values = list(range(len(memory_values)))
+            x_values = [s.step for s in recent_snapshots]
             n = len(memory_values)
 
             # Calculate slope (growth rate)
@@ -401,8 +401,7 @@ class MemoryTracker:
             denominator = sum((x_values[i] - x_mean) ** 2 for i in range(n))
 
             if denominator > 0:
-                slope = numerator / denominator  # MB per snapshot
-                growth_rate = slope * self.snapshot_interval  # MB per step
+                growth_rate = numerator / denominator  # MB per step
 
                 if growth_rate > self.leak_detection_threshold_mb / 100:  # Threshold per step
                     total_growth = memory_values[-1] - memory_values[0]
-- 
2.43.0


From d596e0b30207fd3c6806eba8e54a951804c226f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 53/58] fix: asking for the last 0 data points returns none of
 them

---
 src/wax/flax/visualization/data_flow_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 26becc9..c14cf1c 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -157,7 +157,7 @@ class DataFlowTracker:
 
     def get_recent_data(self, n_points: int = 100) -> list[DataPoint]:
         """Get the most recent n data points."""
-        return list(self.data_history)[-n_points:]
+        return list(self.data_history)[-n_points:] if n_points > 0 else []
 
     def clear_history(self) -> None:
         """Clear all tracking history."""
-- 
2.43.0


From 3dc803690d790a0de1f64512fd905159ad1c4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 54/58] fix: the text plot of a one element array with
 dimensions

---
 src/wax/flax/visualization/data_flow_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index c14cf1c..ac99d3d 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -359,7 +359,7 @@ class DataFlowVisualizer:
         """Format a value for text display."""
         if isinstance(value, jnp.ndarray):
             if value.size == 1:
-                return f"{float(value):.3f}"
+                return f"{float(value.item()):.3f}"
             else:
                 return f"array{value.shape}"
         elif isinstance(value, int | float):
-- 
2.43.0


From a07499a65d1bb04c5fb02594cc37ac974bb00913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 55/58] fix: with ProgressBar() as bar gives the progress bar,
 not None

---
 src/wax/gym/callbacks/progressbar.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/wax/gym/callbacks/progressbar.py b/src/wax/gym/callbacks/progressbar.py
index 598c7c8..bce3e49 100644
--- a/src/wax/gym/callbacks/progressbar.py
+++ b/src/wax/gym/callbacks/progressbar.py
@@ -21,9 +21,6 @@ class ProgressBar(Callback):
         # state
         self._pbar = None
 
-    def __enter__(self):
-        super().__enter__()
-
     def _on_train_start(self, env, agent, obs):
         if self._pbar is None:
             try:
-- 
2.43.0


From 4e934925956e769f6cd44610cb497616003903f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 56/58] fix: a ProgressBar used for a second run shows its
 progress

---
 src/wax/gym/callbacks/progressbar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wax/gym/callbacks/progressbar.py b/src/wax/gym/callbacks/progressbar.py
index bce3e49..fdd12d7 100644
--- a/src/wax/gym/callbacks/progressbar.py
+++ b/src/wax/gym/callbacks/progressbar.py
@@ -34,3 +34,4 @@ class ProgressBar(Callback):
     def _on_train_end(self, env, agent):
         if self._pbar is not None:
             self._pbar.close()
+            self._pbar = None
-- 
2.43.0


From 23148ba1b9b149161925f6c43336bfe47cb11876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:59 +0000
Subject: [PATCH 57/58] fix: a node is nested only in a container whose name it
 extends by a separator

Layer_10 was drawn inside Layer_1.
---
 src/wax/flax/visualization/nested_graph_viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/nested_graph_viz.py b/src/wax/flax/visualization/nested_graph_viz.py
index a41c9fd..855fb6e 100644
--- a/src/wax/flax/visualization/nested_graph_viz.py
+++ b/src/wax/flax/visualization/nested_graph_viz.py
@@ -249,7 +249,7 @@ class HierarchicalGraphAnalyzer:
             if (
                 other_id != node_id
                 and other_node.module_type == "Module"
-                and node_id.startswith(other_id)
+                and node_id.startswith((f"{other_id}.", f"{other_id}_"))
             ):
                 return other_id
 
-- 
2.43.0


From b5414aa67336ba7ad3816c494bfe16ec7030a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:59 +0000
Subject: [PATCH 58/58] fix: the computation graph includes the modules inside
 a module with parameters of its own

---
 src/wax/flax/visualization/computation_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index 136e6e2..2af03c9 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -256,9 +256,9 @@ class ComputationGraphRenderer:
                     if parent_path and parent_path in self.nodes:
                         edge = PipelineEdge(source=parent_path, target=node_path, label="module")
                         self.edges.append(edge)
-                else:
-                    # Recurse into nested structure
-                    self._extract_modules_from_params(value, node_path)
+
+                # Recurse into nested structure, also below a module with parameters of its own
+                self._extract_modules_from_params(value, node_path)
 
     def _infer_module_type(self, name: str, params: dict) -> str:
         """Infer module type from name and parameters."""
-- 
2.43.0

