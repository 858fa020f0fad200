From 59e8b221e87cd28d9eaf9df0881894ed9ae24ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 01/57] fix: index the pooling window by its number of columns
 in DecomonMaxPooling2D

---
 src/decomon/layers/maxpooling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index c6998c2..11a0b23 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -87,7 +87,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
         for i in range(self.pool_size[0]):
             for j in range(self.pool_size[1]):
-                self.filters[i, j, 0, i * self.pool_size[0] + j] = 1
+                self.filters[i, j, 0, i * self.pool_size[1] + j] = 1
 
         self.filters_w = self.filters[None]
         self.strides_w = (1,) + self.strides
-- 
2.43.0


From 980753bca7dc0fcaaec7e15feaccd42327dbd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 02/57] fix: propagate affine bounds through channels_first
 Flatten in the channels-last order

---
 src/decomon/backward_layers/backward_layers.py | 14 +++++++++++++-
 src/decomon/layers/decomon_layers.py           |  5 +++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 76619e6..309352a 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -453,7 +453,19 @@ class BackwardFlatten(BackwardLayer):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        return get_identity_lirpa(inputs)
+        w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
+
+        y = inputs[-1]
+        if self.layer.data_format == "channels_first" and len(y.shape) > 2:
+            # w_out (None, n_in, n_out): reorder the outputs with the same switch to channels-last as in Flatten.call()
+            n_out = w_u_out.shape[-1]
+            perm = (0, 1, *range(3, len(y.shape) + 1), 2)
+            w_u_out, w_l_out = [
+                K.reshape(K.transpose(K.reshape(w, [-1, n_out] + list(y.shape[1:])), perm), (-1, n_out, n_out))
+                for w in (w_u_out, w_l_out)
+            ]
+
+        return [w_u_out, b_u_out, w_l_out, b_l_out]
 
 
 class BackwardReshape(BackwardLayer):
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index d6eced0..0431101 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -745,6 +745,11 @@ class DecomonFlatten(DecomonLayer, Flatten):
             b_l_out = op(b_l)
             input_dim = x.shape[-1]
             output_shape = int(np.prod(b_u_out.shape[1:]))
+            if self.data_format == "channels_first" and len(w_u.shape) > 3:
+                # same switch to channels-last as in Flatten.call(), after the batch and input_dim axes
+                perm = (0, 1, *range(3, len(w_u.shape)), 2)
+                w_u = K.transpose(w_u, perm)
+                w_l = K.transpose(w_l, perm)
             w_u_out = K.reshape(w_u, (-1, input_dim, output_shape))
             w_l_out = K.reshape(w_l, (-1, input_dim, output_shape))
         else:
-- 
2.43.0


From 0c656f57a581dc4d8308a33bccc1d8cbfe5d7afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 03/57] fix: call keras.ops.split with its actual argument name
 in the split utility

---
 src/decomon/layers/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 7bb09d6..af14260 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -683,19 +683,19 @@ def split(
     empty_tensor_list = [empty_tensor] * n
 
     if ibp:
-        u_c_list = K.split(u_c, num_or_size_splits=n, axis=axis)
-        l_c_list = K.split(l_c, num_or_size_splits=n, axis=axis)
+        u_c_list = K.split(u_c, n, axis=axis)
+        l_c_list = K.split(l_c, n, axis=axis)
     else:
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        b_u_list = K.split(b_u, num_or_size_splits=n, axis=axis)
-        b_l_list = K.split(b_l, num_or_size_splits=n, axis=axis)
+        b_u_list = K.split(b_u, n, axis=axis)
+        b_l_list = K.split(b_l, n, axis=axis)
 
         if axis != -1:
             axis += 1
-        w_u_list = K.split(w_u, num_or_size_splits=n, axis=axis)
-        w_l_list = K.split(w_l, num_or_size_splits=n, axis=axis)
+        w_u_list = K.split(w_u, n, axis=axis)
+        w_l_list = K.split(w_l, n, axis=axis)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
             empty_tensor_list,
-- 
2.43.0


From b187f4e505307ecf66b774719b276bb5fb9708ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 04/57] fix: abs is the sum, not the difference, of relu(x) and
 relu(-x)

---
 src/decomon/layers/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index af14260..d4ff072 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -899,15 +899,11 @@ def abs(
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
     inputs_0 = relu_(inputs, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-    inputs_1 = minus(
-        relu_(
-            minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
-            dc_decomp=dc_decomp,
-            perturbation_domain=perturbation_domain,
-            mode=mode,
-        ),
-        mode=mode,
+    inputs_1 = relu_(
+        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
+        mode=mode,
     )
 
     return add(inputs_0, inputs_1, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-- 
2.43.0


From 32d475c3550e0fa75b1e9d0acb9397bd06eb3b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 05/57] fix: use the chord and tangent of 1/x in frac_pos

---
 src/decomon/layers/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index d4ff072..d4dd9ee 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -218,17 +218,18 @@ def frac_pos(
     l_c_out = K.cast(1.0, dtype=u_c.dtype) / u_c
 
     if affine:
-        w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
-        b_u_0 = l_c_out - w_u_0 * l_c
+        # 1/x is decreasing: l_c_out = 1/u_c, u_c_out = 1/l_c
+        w_u_0 = (l_c_out - u_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        b_u_0 = u_c_out - w_u_0 * l_c
 
         y = (u_c + l_c) / 2.0
         b_l_0 = K.cast(2.0, dtype=y.dtype) / y
         w_l_0 = -K.cast(1.0, dtype=y.dtype) / y**2
 
         w_u_out = w_u_0[:, None] * w_l
-        b_u_out = b_u_0 * b_l + b_u_0
+        b_u_out = w_u_0 * b_l + b_u_0
         w_l_out = w_l_0[:, None] * w_u
-        b_l_out = b_l_0 * b_u + b_l_0
+        b_l_out = w_l_0 * b_u + b_l_0
     else:
         w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 594f40fd1e014086a736e224a0dcc0693e282c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 06/57] fix: move the same axis of the affine weights as of the
 values in permute_dimensions

---
 src/decomon/layers/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index d4dd9ee..20a957d 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -562,8 +562,9 @@ def permute_dimensions(
         return inputs
     index_np = np.arange(len(input_shape))
     index = tuple(np.insert(np.delete(index_np, axis), axis_perm, axis))
+    # the weights have one more axis, right after the batch one
     index_w_np = np.arange(len(input_shape) + 1)
-    index_w = tuple(np.insert(np.delete(index_w_np, axis), axis_perm + 1, axis))
+    index_w = tuple(np.insert(np.delete(index_w_np, axis + 1), axis_perm + 1, axis + 1))
 
     if ibp:
         u_c_out = K.transpose(u_c, index)
-- 
2.43.0


From 7c98fb1f7172ae040dc5a21458d5723f1558e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 07/57] fix: softmax exponentiates its inputs, not their
 opposites

---
 src/decomon/layers/activations.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/decomon/layers/activations.py b/src/decomon/layers/activations.py
index e773a14..7dafdda 100644
--- a/src/decomon/layers/activations.py
+++ b/src/decomon/layers/activations.py
@@ -19,7 +19,6 @@ from decomon.layers.utils import exp, expand_dims, frac_pos, multiply, softplus_
 from decomon.types import Tensor
 from decomon.utils import (
     get_linear_hull_s_shape,
-    minus,
     relu_,
     sigmoid_prime,
     softsign_prime,
@@ -471,7 +470,7 @@ def softmax(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     outputs_exp = exponential(
-        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        inputs,
         dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         mode=mode,
-- 
2.43.0


From a38dfdfa4dd6dccd9bce850eb43dd6da2d4b5d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 08/57] fix: build the softplus hull from softplus and keep its
 upper bound on negative intervals

---
 src/decomon/utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index a4d7944..bf4b1fa 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -213,10 +213,8 @@ def get_linear_hull_tanh(upper: Tensor, lower: Tensor, slope: Union[str, Slope],
 
 def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slope], **kwargs: Any) -> list[Tensor]:
     slope = Slope(slope)
-    # in case upper=lower, this cases are
-    # considered with index_dead and index_linear
-    u_c = K.softsign(upper)
-    l_c = K.softsign(lower)
+    u_c = K.softplus(upper)
+    l_c = K.softplus(lower)
     alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
     w_u = alpha
     b_u = -alpha * lower + l_c
@@ -245,9 +243,8 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
 
     index_dead = -K.clip(K.sign(upper) - o_value, -o_value, z_value)
 
-    w_u = (o_value - index_dead) * w_u
+    # softplus is above max(0, x) everywhere: only the lower bound can be zeroed where x<=0
     w_l = (o_value - index_dead) * w_l
-    b_u = (o_value - index_dead) * b_u
     b_l = (o_value - index_dead) * b_l
 
     if "finetune" in kwargs:
@@ -257,7 +254,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         alpha_l = alpha_l[None]
 
         w_u = alpha_u * w_u
-        b_u = alpha_u * b_u + (o_value - alpha_u) * K.maximum(upper, z_value)
+        b_u = alpha_u * b_u + (o_value - alpha_u) * K.softplus(upper)
 
         w_l = alpha_l * w_l
         b_l = alpha_l * b_l + (o_value - alpha_l) * K.maximum(lower, z_value)
-- 
2.43.0


From d8b72981cbe3b687ebe9f46b00c1633cbb875d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 09/57] fix: bound s-shaped activations with tangents instead
 of inexact grid chords

---
 src/decomon/utils.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index bf4b1fa..ace394e 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -636,13 +636,11 @@ def get_t_upper(
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (s_t - K.expand_dims(s_l, -1)) / (t - l_c_reshaped))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-    threshold = K.min(score, -1)  # (None, n)
-
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index - 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
+    # the tangent at t is above func on [l, u] if and only if it is above func at l:
+    # among such t, choose the one whose tangent is the closest to the point (l, func(l))
+    score = (s_t - K.expand_dims(s_l, -1)) / (t - l_c_reshaped) - s_p_t  # (None, n, 100)
+    score = K.where(K.greater_equal(score, z_value * t), score, K.cast(np.inf, dtype=t.dtype) + z_value * t)
+    index_t = K.cast(K.argmin(score, -1), dtype=u_c_flat.dtype)  # (None, n)
     t_value = K.sum(
         K.where(
             K.equal(
@@ -656,8 +654,8 @@ def get_t_upper(
     )  # (None, n)
 
     s_t = func(t_value)  # (None, n)
-    w_u = (s_t - s_l) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), t_value - l_c_flat)  # (None, n)
-    b_u = -w_u * l_c_flat + s_l  # + func(l_c_flat)
+    w_u = f_prime(t_value)  # (None, n)
+    b_u = -w_u * t_value + s_t
 
     return [w_u, b_u]
 
@@ -693,13 +691,11 @@ def get_t_lower(
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (K.expand_dims(s_u, -1) - s_t) / (u_c_reshaped - t))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-
-    threshold = K.min(score, -1)
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index + 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
+    # the tangent at t is below func on [l, u] if and only if it is below func at u:
+    # among such t, choose the one whose tangent is the closest to the point (u, func(u))
+    score = (K.expand_dims(s_u, -1) - s_t) / (u_c_reshaped - t) - s_p_t  # (None, n, 100)
+    score = K.where(K.greater_equal(score, z_value * t), score, K.cast(np.inf, dtype=t.dtype) + z_value * t)
+    index_t = K.cast(K.argmin(score, -1), dtype=u_c_flat.dtype)  # (None, n)
     t_value = K.sum(
         K.where(
             K.equal(
@@ -713,7 +709,7 @@ def get_t_lower(
     )
 
     s_t = func(t_value)  # (None, n)
-    w_l = (s_u - s_t) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_flat - t_value)  # (None, n)
-    b_l = -w_l * u_c_flat + s_u  # func(u_c_flat)
+    w_l = f_prime(t_value)  # (None, n)
+    b_l = -w_l * t_value + s_t
 
     return [w_l, b_l]
-- 
2.43.0


From fae3b214ffe97a24ad84a6a2e84cf5e6f2969cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 10/57] fix: keep the affine lower bound of exp positive so
 that softmax can invert the sum

---
 src/decomon/layers/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 20a957d..42acf5c 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -1143,7 +1143,8 @@ def exp(
     l_c_out = K.exp(l_c)
 
     if affine:
-        y = (u_c + l_c) / 2.0  # do finetuneting
+        # the tangent point is kept below l_c + 1, so that the affine lower bound of exp is positive on [l_c, u_c]
+        y = K.minimum((u_c + l_c) / 2.0, l_c + 0.99)  # do finetuneting
 
         w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
         b_u_0 = l_c_out - w_u_0 * l_c
-- 
2.43.0


From 6be945ce12b98e5aa50de3fb906ca220253fffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 11/57] fix: refuse Dot layers that normalize their inputs
 instead of ignoring it

---
 src/decomon/layers/decomon_merge_layers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 8838cdb..dbc554c 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -566,6 +566,8 @@ class DecomonDot(DecomonMerge, Dot):
             fast=fast,
             **kwargs,
         )
+        if self.normalize:
+            raise NotImplementedError("Dot layers with normalize=True are not implemented.")
         if isinstance(axes, int):
             self.axes = (axes, axes)
         else:
-- 
2.43.0


From c5d91d5f6ffbbdab6593c1090ce601a9e7dae801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 12/57] fix: accept negative axes in permute_dimensions (Dot on
 inputs of rank 3)

---
 src/decomon/layers/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 42acf5c..1d4fb2b 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -560,6 +560,7 @@ def permute_dimensions(
     if len(input_shape) <= 2:
         # not enough dim to permute
         return inputs
+    axis = axis % len(input_shape)  # axes can be counted from the last one
     index_np = np.arange(len(input_shape))
     index = tuple(np.insert(np.delete(index_np, axis), axis_perm, axis))
     # the weights have one more axis, right after the batch one
-- 
2.43.0


From aaf95450f31d2c9c3428c13b6470bfa74b8f3540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 13/57] fix: concatenate the affine weights along the same axis
 as the values for negative axes

---
 src/decomon/layers/decomon_merge_layers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index dbc554c..1ef67f5 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -432,10 +432,13 @@ class DecomonConcatenate(DecomonMerge, Concatenate):
             return Concatenate.call(self, inputs)
 
         self.op = func
-        if self.axis == -1:
-            self.op_w = self.op
-        else:
-            self.op_w = Concatenate(axis=self.axis + 1)
+        # the weights have one more axis, right after the batch one
+        axis_w = self.axis if self.axis < 0 else self.axis + 1
+
+        def func_w(inputs: list[BackendTensor]) -> BackendTensor:
+            return K.concatenate(inputs, axis=axis_w)
+
+        self.op_w = func_w
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         # splits the inputs
-- 
2.43.0


From 9cbd8e5726b86b8df13160175aed01fa800f7dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 14/57] fix: give the dot product of two vectors the shape
 Keras gives it

---
 src/decomon/layers/decomon_merge_layers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 1ef67f5..710f19e 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -614,17 +614,20 @@ class DecomonDot(DecomonMerge, Dot):
         dtype = x.dtype
         empty_tensor = self.inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
+        # the dot product of two vectors is a vector with a single element
+        keepdims = n_0 + n_1 == 0
+
         if self.ibp:
-            u_c_out = K.sum(u_c, 1)
-            l_c_out = K.sum(l_c, 1)
+            u_c_out = K.sum(u_c, 1, keepdims=keepdims)
+            l_c_out = K.sum(l_c, 1, keepdims=keepdims)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
         if self.affine:
-            w_u_out = K.sum(w_u, 2)
-            b_u_out = K.sum(b_u, 1)
-            w_l_out = K.sum(w_l, 2)
-            b_l_out = K.sum(b_l, 1)
+            w_u_out = K.sum(w_u, 2, keepdims=keepdims)
+            b_u_out = K.sum(b_u, 1, keepdims=keepdims)
+            w_l_out = K.sum(w_l, 2, keepdims=keepdims)
+            b_l_out = K.sum(b_l, 1, keepdims=keepdims)
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 1523b0c6d8dfe87a2fd68cd7464a47fe7ffede1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 15/57] fix: return the bounds of every output of a model, in
 order

Only the output nodes at depth 0 were looked up (twice for a layer producing several outputs), and the conversion
to the final mode kept the bounds of the first output only.
---
 src/decomon/models/backward_cloning.py | 75 +++++++++++++-------------
 src/decomon/models/convert.py          | 10 ++--
 src/decomon/models/forward_cloning.py  | 11 ++--
 src/decomon/models/utils.py            | 15 ++++++
 4 files changed, 63 insertions(+), 48 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 89137c7..5525bea 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -31,6 +31,8 @@ from decomon.models.utils import (
     ensure_functional_model,
     get_depth_dict,
     get_input_dim,
+    get_output_nodes,
+    split_outputs,
 )
 from decomon.types import BackendTensor, Tensor
 
@@ -366,35 +368,30 @@ def crown_model(
     # print('step1', time_1-zero_time)
     # retrieve output nodes
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
     fuse_layer = None
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                # compute with crown
-                output_crown, fuse_layer = crown_(
-                    node=node,
-                    ibp=ibp,
-                    affine=affine,
-                    input_map=input_map,
-                    layer_fn=layer_fn,
-                    backward_bounds=back_bounds,
-                    backward_map=backward_map,
-                    joint=joint,
-                    fuse=fuse,
-                    perturbation_domain=perturbation_domain,
-                    output_map=crown_map,
-                    fuse_layer=fuse_layer,
-                )
-                # time_2 = time.process_time()
-                # print('step2', time_2-time_1)
-                if fuse:
-                    # import pdb; pdb.set_trace()
-                    output += to_list(set_mode_layer(input_tensors + output_crown))
-                else:
-                    output = output_crown
+    for node in get_output_nodes(model):
+        # compute with crown
+        output_crown, fuse_layer = crown_(
+            node=node,
+            ibp=ibp,
+            affine=affine,
+            input_map=input_map,
+            layer_fn=layer_fn,
+            backward_bounds=back_bounds,
+            backward_map=backward_map,
+            joint=joint,
+            fuse=fuse,
+            perturbation_domain=perturbation_domain,
+            output_map=crown_map,
+            fuse_layer=fuse_layer,
+        )
+        # time_2 = time.process_time()
+        # print('step2', time_2-time_1)
+        if fuse:
+            # import pdb; pdb.set_trace()
+            output += to_list(set_mode_layer(input_tensors + output_crown))
+        else:
+            output = output_crown
 
     return input_tensors, output, backward_map, None
 
@@ -451,13 +448,17 @@ def convert_backward(
     input_tensors, output, backward_map, toto = result
     mode_from = get_mode(ibp, affine)
     mode_to = get_mode(final_ibp, final_affine)
-    output = Convert2Mode(
-        mode_from=mode_from,
-        mode_to=mode_to,
-        perturbation_domain=perturbation_domain,
-        input_dim=input_dim,
-    )(output)
-    if mode_to != mode_from and mode_from == ForwardMode.IBP:
-        f_input = Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))
-        output[0] = f_input([input_tensors[1], input_tensors[0]])
+    outputs_by_node = split_outputs(output, mode_from, perturbation_domain)
+    output = []
+    for output_node in outputs_by_node:
+        output_node = Convert2Mode(
+            mode_from=mode_from,
+            mode_to=mode_to,
+            perturbation_domain=perturbation_domain,
+            input_dim=input_dim,
+        )(output_node)
+        if mode_to != mode_from and mode_from == ForwardMode.IBP:
+            f_input = Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))
+            output_node[0] = f_input([input_tensors[1], input_tensors[0]])
+        output += output_node
     return input_tensors, output, backward_map, toto
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 2fc6644..73d354e 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -29,6 +29,7 @@ from decomon.models.utils import (
     is_input_node,
     preprocess_layer,
     split_activation,
+    split_outputs,
 )
 
 
@@ -159,9 +160,12 @@ def convert(
         # check final_ibp and final_affine
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
-        output = Convert2Mode(
-            mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
-        )(output)
+        outputs_by_node = split_outputs(output, mode_from, perturbation_domain)
+        output = []
+        for output_node in outputs_by_node:
+            output += Convert2Mode(
+                mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
+            )(output_node)
 
     # build decomon model
     return input_tensors, output, layer_map, forward_map
diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index 2c12946..a62d916 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -11,7 +11,6 @@ from typing import Any, Optional, Union
 import keras
 from keras.layers import InputLayer, Layer
 from keras.models import Model
-from keras.src.utils.python_utils import to_list
 
 from decomon.core import BoxDomain, PerturbationDomain, Slope
 from decomon.layers.convert import to_decomon
@@ -22,6 +21,7 @@ from decomon.models.utils import (
     get_depth_dict,
     get_inner_layers,
     get_input_dim,
+    get_output_nodes,
     prepare_inputs_for_layer,
     wrap_outputs_from_layer_in_list,
 )
@@ -217,12 +217,7 @@ def convert_forward_functional_model(
             output_map[id(node)] = wrap_outputs_from_layer_in_list(output)
 
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                output += output_map[id(node)]
+    for node in get_output_nodes(model):
+        output += output_map[id(node)]
 
     return input_tensors, output, layer_map, output_map, layer2layer_map
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f0ecd6a..764c6cb 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -17,6 +17,7 @@ from keras.layers import (
 )
 from keras.src import Functional
 from keras.src.ops.node import Node
+from keras.src.utils.python_utils import to_list
 
 from decomon.core import (
     BallDomain,
@@ -272,6 +273,20 @@ def get_depth_dict(model: Model) -> dict[int, list[Node]]:
     return dico_nodes
 
 
+def get_output_nodes(model: Model) -> list[Node]:
+    """Get the nodes computing the outputs of the model, in the order of the outputs"""
+    histories = [tensor._keras_history for tensor in to_list(model.output)]
+    return [history.operation._inbound_nodes[history.node_index] for history in histories]
+
+
+def split_outputs(
+    output: list[keras.KerasTensor], mode: ForwardMode, perturbation_domain: PerturbationDomain
+) -> list[list[keras.KerasTensor]]:
+    """Split the concatenated bounds of the outputs of a model into the bounds of each output"""
+    inputs_outputs_spec = InputsOutputsSpec(dc_decomp=False, mode=mode, perturbation_domain=perturbation_domain)
+    return inputs_outputs_spec.split_inputsformode_to_merge(output)
+
+
 def get_inner_layers(model: Model) -> int:
     count = 0
     for layer in model.layers:
-- 
2.43.0


From 095fff4c7f68f738d010080a799098ec3d676991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:16 +0000
Subject: [PATCH 16/57] fix: permute the outputs, not the inputs, of the affine
 weights in BackwardPermute

---
 src/decomon/backward_layers/backward_layers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 309352a..c067154 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -519,19 +519,16 @@ class BackwardPermute(BackwardLayer):
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
 
-        # w_u_out (None, n_in, n_out)
+        # w_out (None, n_in, n_out): permute the outputs
         y = inputs[-1]
         n_dim = w_u_out.shape[1]
-        n_out = w_u_out.shape[-1]
         shape = list(y.shape[1:])
+        dims = [0, 1] + [dim + 1 for dim in self.dims]
 
-        w_u_out = K.reshape(w_u_out, [-1] + shape + [n_out])
-        w_l_out = K.reshape(w_l_out, [-1] + shape + [n_out])
-
-        dims = [0] + list(self.dims) + [len(y.shape)]
-        dims = list(np.argsort(dims))
-        w_u_out = K.reshape(K.transpose(w_u_out, dims), (-1, n_dim, n_out))
-        w_l_out = K.reshape(K.transpose(w_l_out, dims), (-1, n_dim, n_out))
+        w_u_out, w_l_out = [
+            K.reshape(K.transpose(K.reshape(w, [-1, n_dim] + shape), dims), (-1, n_dim, n_dim))
+            for w in (w_u_out, w_l_out)
+        ]
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
-- 
2.43.0


From cdd0ae214dfe6e963a088b6a09ee05ad743800a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 17/57] fix: give the bounds computed by crown for intermediate
 tensors the shape of these tensors

Pure crown fed flattened bounds to the backward layers: Flatten with channels_first was silently reordered wrongly and
Dense, Permute and BatchNormalization on several axes raised.
---
 src/decomon/models/backward_cloning.py | 29 ++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 5525bea..e57f9a6 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -20,6 +20,7 @@ from decomon.core import (
     PerturbationDomain,
     Slope,
     get_affine,
+    get_ibp,
     get_mode,
 )
 from decomon.keras_utils import BatchedIdentityLike
@@ -66,6 +67,27 @@ def get_disconnected_input(
     return Lambda(disco_priv, dtype=dtype)
 
 
+def reshape_bounds(
+    bounds: list[keras.KerasTensor],
+    shape: tuple[int, ...],
+    mode: ForwardMode,
+    perturbation_domain: PerturbationDomain,
+) -> list[keras.KerasTensor]:
+    """Reshape flattened bounds into the bounds of a tensor of given shape (batch axis excluded)"""
+    if len(shape) == 1:
+        return bounds
+    inputs_outputs_spec = InputsOutputsSpec(dc_decomp=False, mode=mode, perturbation_domain=perturbation_domain)
+    x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(
+        bounds, compute_ibp_from_affine=False, tight=False
+    )
+    if get_ibp(mode):
+        u_c, l_c = [K.reshape(elem, (-1, *shape)) for elem in (u_c, l_c)]
+    if get_affine(mode):
+        b_u, b_l = [K.reshape(elem, (-1, *shape)) for elem in (b_u, b_l)]
+        w_u, w_l = [K.reshape(elem, (-1, elem.shape[1], *shape)) for elem in (w_u, w_l)]
+    return inputs_outputs_spec.extract_outputsformode_from_fulloutputs([x, u_c, w_u, b_u, l_c, w_l, b_l, h, g])
+
+
 def retrieve_layer(
     node: Node,
     layer_fn: Callable[[Layer], BackwardLayer],
@@ -276,8 +298,11 @@ def get_input_nodes(
                         # convert output_crown in the right mode
                         if set_mode_layer is None:
                             set_mode_layer = Convert2BackwardMode(get_mode(ibp, affine), perturbation_domain)
-                        output_crown = set_mode_layer(input_tensors + output_crown)
-                        output += to_list(output_crown)
+                        output_crown = to_list(set_mode_layer(input_tensors + output_crown))
+                        # crown bounds are flattened: give them the shape of the bounded tensor
+                        output += reshape_bounds(
+                            output_crown, parent.output_tensors[0].shape[1:], get_mode(ibp, affine), perturbation_domain
+                        )
                         # crown_map[id(parent)]=output_crown_
 
                 input_map[id(node)] = output
-- 
2.43.0


From bf3c4363f662cb0c1fa24de546d3e2ddac282132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:04 +0000
Subject: [PATCH 18/57] fix: treat the constant bounds on the input as a box in
 pure crown, whatever the perturbation domain

For a ball, the bounds were used as the centre of the ball: the bounds of crown and crown-forward-ibp did not enclose
the output, or had wrong shapes.
---
 src/decomon/models/crown.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/crown.py b/src/decomon/models/crown.py
index 6abbd7d..c92e347 100644
--- a/src/decomon/models/crown.py
+++ b/src/decomon/models/crown.py
@@ -5,7 +5,7 @@ import keras.ops as K
 from keras.layers import InputSpec, Layer
 from keras.src.layers.merging.dot import batch_dot
 
-from decomon.core import ForwardMode, PerturbationDomain
+from decomon.core import BoxDomain, ForwardMode, PerturbationDomain
 from decomon.keras_utils import BatchedDiagLike
 from decomon.types import BackendTensor
 
@@ -71,13 +71,16 @@ class Convert2BackwardMode(Layer):
 
         if self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
             x_0 = inputs_wo_backward_bounds[0]
+            perturbation_domain = self.perturbation_domain
         else:
+            # only constant bounds on the input are available, whatever the actual perturbation domain
             u_c, l_c = inputs_wo_backward_bounds
             x_0 = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
+            perturbation_domain = BoxDomain()
 
         if self.mode in [ForwardMode.IBP, ForwardMode.HYBRID]:
-            u_c_out = self.perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
-            l_c_out = self.perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
+            u_c_out = perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
+            l_c_out = perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
-- 
2.43.0


From 32e47b3b1cb5a27eeb2107464e46b9af5ca3b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:20 +0000
Subject: [PATCH 19/57] fix: Toeplitz matrix of channels_first convolutions
 (order of the axes, strides, dilation)

---
 src/decomon/backward_layers/utils_conv.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index ae0faf8..f1bf00b 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -131,7 +131,14 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
-    diag_patches = extract_patches(diag, [filter_size, filter_size], [1, 1], [1, 1], padding=conv_layer.padding)
+    diag_patches = extract_patches(
+        diag,
+        size=[filter_size, filter_size],
+        strides=list(conv_layer.strides),
+        dilation_rate=list(conv_layer.dilation_rate),
+        padding=conv_layer.padding,
+        data_format="channels_last",
+    )
 
     diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
 
@@ -153,6 +160,9 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
 
+    # inputs and outputs are channels first: (c_in, w_in, h_in, c_out, w_out, h_out)
+    w = K.transpose(w, (2, 0, 1, 5, 3, 4))
+
     if flatten:
         return K.reshape(w, (w_in * h_in * c_in, w_out * h_out * c_out))
     else:
-- 
2.43.0


From ef9f66009bd6b2501243df6ca3f7d2ba606c6b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 20/57] fix: backward sigmoid, tanh and softplus return
 flattened bounds for multidimensional inputs

---
 src/decomon/backward_layers/activations.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/activations.py b/src/decomon/backward_layers/activations.py
index 153f1cd..259f382 100644
--- a/src/decomon/backward_layers/activations.py
+++ b/src/decomon/backward_layers/activations.py
@@ -115,7 +115,9 @@ def backward_sigmoid(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
-    return get_linear_hull_sigmoid(u_c, l_c, slope=slope, **kwargs)
+    bounds = get_linear_hull_sigmoid(u_c, l_c, slope=slope, **kwargs)
+    dim = int(np.prod(u_c.shape[1:]))
+    return [K.reshape(elem, (-1, dim)) for elem in bounds]
 
 
 def backward_tanh(
@@ -146,7 +148,9 @@ def backward_tanh(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
-    return get_linear_hull_tanh(u_c, l_c, slope=slope, **kwargs)
+    bounds = get_linear_hull_tanh(u_c, l_c, slope=slope, **kwargs)
+    dim = int(np.prod(u_c.shape[1:]))
+    return [K.reshape(elem, (-1, dim)) for elem in bounds]
 
 
 def backward_hard_sigmoid(
@@ -322,7 +326,9 @@ def backward_softplus(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
-    return get_linear_softplus_hull(u_c, l_c, slope=slope, **kwargs)
+    bounds = get_linear_softplus_hull(u_c, l_c, slope=slope, **kwargs)
+    dim = int(np.prod(u_c.shape[1:]))
+    return [K.reshape(elem, (-1, dim)) for elem in bounds]
 
 
 def backward_softsign(
-- 
2.43.0


From 603d66f1272249082c99c563d722bd6f7019329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 21/57] fix: merge all the previous inputs in BackwardAverage
 for more than two inputs

---
 src/decomon/backward_layers/backward_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_merge.py b/src/decomon/backward_layers/backward_merge.py
index 0a9028a..6a87a1a 100644
--- a/src/decomon/backward_layers/backward_merge.py
+++ b/src/decomon/backward_layers/backward_merge.py
@@ -228,7 +228,7 @@ class BackwardAverage(BackwardMerge):
                 if j == 1:
                     inputs_0 = inputs_list[0]
                 else:
-                    inputs_0 = self.op(list(chain(*inputs_list[: (j - 1)])))  # merge (j-1) first inputs
+                    inputs_0 = self.op(list(chain(*inputs_list[:j])))  # merge j first inputs
                 bounds_0, bounds_1 = backward_add(
                     inputs_0,
                     inputs_1,
-- 
2.43.0


From 7858547c90776a097c2328ec7a3036c8d7e7ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 22/57] fix: build the backward bounds of Concatenate from all
 its inputs

---
 src/decomon/backward_layers/backward_merge.py | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/decomon/backward_layers/backward_merge.py b/src/decomon/backward_layers/backward_merge.py
index 6a87a1a..a9a8319 100644
--- a/src/decomon/backward_layers/backward_merge.py
+++ b/src/decomon/backward_layers/backward_merge.py
@@ -412,21 +412,24 @@ class BackwardConcatenate(BackwardMerge):
         self.axis = self.layer.axis
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[list[BackendTensor]]:
-        w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
-
         inputs_list = self.inputs_outputs_spec.split_inputsformode_to_merge(inputs)
-        n_elem = len(inputs_list)
-        n_list = [self.inputs_outputs_spec.get_kerasinputshape(subinputs)[self.axis] for subinputs in inputs_list]
-        indices_split = np.cumsum(n_list[:-1])
-        axis_w = self.axis
-        if axis_w != -1:
-            axis_w += 1
-        w_u_out_list = K.split(w_u_out, indices_split, axis_w)
-        w_l_out_list = K.split(w_l_out, indices_split, axis_w)
-        b_u_out_list = K.split(b_u_out, indices_split, self.axis)
-        b_l_out_list = K.split(b_l_out, indices_split, self.axis)
-
-        bounds = [[w_u_out_list[i], b_u_out_list[i], w_l_out_list[i], b_l_out_list[i]] for i in range(n_elem)]
+        y_list = [subinputs[-1] for subinputs in inputs_list]
+        w_out, b_out, _, _ = get_identity_lirpa([K.concatenate(y_list, axis=self.axis)])
+
+        # position in the (flattened) output of each (flattened) input
+        input_shapes = [self.inputs_outputs_spec.get_kerasinputshape(subinputs) for subinputs in inputs_list]
+        indices_split = np.cumsum([input_shape[self.axis] for input_shape in input_shapes])
+        output_shape = list(input_shapes[0])
+        output_shape[self.axis] = indices_split[-1]
+        axis = self.axis if self.axis < 0 else self.axis - 1  # axis without the batch
+        indices = np.arange(np.prod(output_shape[1:])).reshape(output_shape[1:])
+        indices_list = [elem.ravel() for elem in np.split(indices, indices_split[:-1], axis=axis)]
+
+        # the affine functions of all inputs sum up to their concatenation
+        bounds = []
+        for ind in indices_list:
+            w_out_i = K.take(w_out, ind, axis=1)
+            bounds.append([w_out_i, b_out, w_out_i, b_out])
 
         return bounds
 
-- 
2.43.0


From c9639f50770055874ec30506a716dff236c48313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 23/57] fix: backward bounds of the minimum were those of the
 maximum

---
 src/decomon/backward_layers/utils.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 1b6094e..82d8cb7 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -379,13 +379,13 @@ def backward_minimum(
 
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
-    w_u_out, b_u_out, w_l_out, b_l_out = backward_minus(w_u_out, b_u_out, w_l_out, b_l_out)
+    # minimum(x, y) = -maximum(-x, -y)
     bounds_0, bounds_1 = backward_maximum(
-        inputs_0,
-        inputs_1,
-        w_u_out,
+        minus(inputs_0, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
+        minus(inputs_1, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
+        -w_u_out,
         b_u_out,
-        w_l_out,
+        -w_l_out,
         b_l_out,
         perturbation_domain=perturbation_domain,
         mode=mode,
@@ -393,13 +393,7 @@ def backward_minimum(
         **kwargs,
     )
 
-    w_u_out_0, b_u_out_0, w_l_out_0, b_l_out_0 = bounds_0
-    w_u_out_1, b_u_out_1, w_l_out_1, b_l_out_1 = bounds_1
-
-    bounds_0 = backward_minus(w_u_out_0, b_u_out_0, w_l_out_0, b_l_out_0)
-    bounds_1 = backward_minus(w_u_out_1, b_u_out_1, w_l_out_1, b_l_out_1)
-
-    return [bounds_0, bounds_1]
+    return [[-w_u, b_u, -w_l, b_l] for w_u, b_u, w_l, b_l in (bounds_0, bounds_1)]
 
 
 def backward_minus(
-- 
2.43.0


From ddbfffddc24a0b5c74be24d5910f63ea6e9aed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 24/57] fix: match the dimensions of the backward weights in
 backward_multiply

---
 src/decomon/backward_layers/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 82d8cb7..ad6411f 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -535,8 +535,7 @@ def backward_multiply(
     n = int(np.prod(u_c_0.shape[1:]))
     n_shape = [-1, n]
     # broadcast dimensions if needed
-    n_out = len(w_u_out.shape[1:])
-    for _ in range(n_out):
+    for _ in range(len(w_u_out.shape[2:])):
         n_shape += [1]
     a_u_0 = K.reshape(u_c_1, n_shape)
     a_u_1 = K.reshape(u_c_0, n_shape)
-- 
2.43.0


From 908d82c49f0b0a04d967c4e64b16284729f54a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 25/57] fix: softmax_to_linear on stand-alone softmax layers

Build a new model instead of mutating the original one (Activation) or
raising (Softmax).
---
 src/decomon/layers/utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 1d4fb2b..33832fc 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -407,11 +407,18 @@ def softmax_to_linear(model: keras.Model) -> tuple[keras.Model, bool]:
         model without the softmax
     """
     layer = model.layers[-1]
-    # check that layer is not an instance of the object Softmax
-    if isinstance(layer, keras.layers.Softmax):
-        model_normalize = keras.models.Model(model.get_input_at(0), keras.layers.Activation("linear")(layer.input))
-
-        return model_normalize, True
+    # stand-alone softmax layers are replaced in a new model, to leave the original model unchanged
+    if isinstance(layer, keras.layers.Softmax) or (
+        isinstance(layer, keras.layers.Activation) and layer.get_config()["activation"] == "softmax"
+    ):
+        outputs = []
+        for output in model.outputs:
+            operation, node_index, _ = output._keras_history
+            if operation is layer:
+                output = keras.layers.Activation("linear")(layer._inbound_nodes[node_index].input_tensors[0])
+            outputs.append(output)
+
+        return keras.models.Model(model.inputs, outputs), True
 
     if hasattr(layer, "activation"):
         if not layer.get_config()["activation"] == "softmax":
-- 
2.43.0


From dbd7551a9ba54a28e1ec308102232568a78fc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 26/57] fix: conversion of nested models with several inputs or
 outputs

---
 src/decomon/models/forward_cloning.py | 25 ++++++++++++++++++-------
 src/decomon/models/utils.py           |  6 ++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index a62d916..404b54b 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -21,8 +21,9 @@ from decomon.models.utils import (
     get_depth_dict,
     get_inner_layers,
     get_input_dim,
-    get_output_nodes,
+    is_input_node,
     prepare_inputs_for_layer,
+    split_tensors,
     wrap_outputs_from_layer_in_list,
 )
 
@@ -90,6 +91,13 @@ def include_dim_layer_fn(
     return func
 
 
+def get_converted_tensors(tensor: keras.KerasTensor, output_map: OutputMapDict) -> list[keras.KerasTensor]:
+    """Get the tensors corresponding to a given tensor of the original model, among the ones of its (converted) node"""
+    operation, node_index, tensor_index = tensor._keras_history
+    node = operation._inbound_nodes[node_index]
+    return split_tensors(output_map[id(node)], len(node.output_tensors))[tensor_index]
+
+
 def convert_forward(
     model: Model,
     input_tensors: list[keras.KerasTensor],
@@ -169,13 +177,16 @@ def convert_forward_functional_model(
         nodes = dico_nodes[depth]
         for node in nodes:
             layer = node.operation
-            parents = node.parent_nodes
             if id(node) in output_map.keys():
                 continue
-            if len(parents):
+            if is_input_node(node):
+                # select the tensors corresponding to this input among all the inputs of the model
+                index = [tensor._keras_history.operation for tensor in model.inputs].index(layer)
+                output = split_tensors(input_tensors, len(model.inputs))[index]
+            else:
                 output = []
-                for parent in parents:
-                    output += output_map[id(parent)]
+                for tensor in node.input_tensors:
+                    output += get_converted_tensors(tensor, output_map)
 
             if isinstance(layer, InputLayer):
                 # no conversion, no transformation for output (instead of trying to pass in identity layer)
@@ -217,7 +228,7 @@ def convert_forward_functional_model(
             output_map[id(node)] = wrap_outputs_from_layer_in_list(output)
 
     output = []
-    for node in get_output_nodes(model):
-        output += output_map[id(node)]
+    for tensor in model.outputs:
+        output += get_converted_tensors(tensor, output_map)
 
     return input_tensors, output, layer_map, output_map, layer2layer_map
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 764c6cb..80b5cfc 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -287,6 +287,12 @@ def split_outputs(
     return inputs_outputs_spec.split_inputsformode_to_merge(output)
 
 
+def split_tensors(tensors: list[keras.KerasTensor], n_parts: int) -> list[list[keras.KerasTensor]]:
+    """Split a list of tensors into parts of same length"""
+    n = len(tensors) // n_parts
+    return [tensors[n * i : n * (i + 1)] for i in range(n_parts)]
+
+
 def get_inner_layers(model: Model) -> int:
     count = 0
     for layer in model.layers:
-- 
2.43.0


From 1f1a9c9c44e921c05e73d898b73048d4e4e8e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 27/57] fix: refine_boxes must keep the upper corner of boxes
 with several dimensions

---
 src/decomon/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 2a5129b..38d6ae1 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -763,7 +763,7 @@ def refine_boxes(
     output_dim = np.prod(shape)
     if len(shape) > 1:
         x_min = np.reshape(x_min, (-1, output_dim))
-        x_max = np.reshape(x_min, (-1, output_dim))
+        x_max = np.reshape(x_max, (-1, output_dim))
     # x_min (None, n)
     # x_max (None, n)
     n = x_min.shape[-1]
-- 
2.43.0


From b63c081b729930032c013c231bb51d2d9a244e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 28/57] fix: get_range_box merges the sub-boxes of each box
 separately for each output

---
 src/decomon/wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 38d6ae1..9b3156d 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -589,8 +589,9 @@ def get_range_box(
             l_out = np.reshape(l_out, [-1] + shape)
 
     if n_split > 1:
-        u_out = np.max(np.reshape(u_out, (-1, n_split)), -1)
-        l_out = np.min(np.reshape(l_out, (-1, n_split)), -1)
+        output_shape = list(u_out.shape[1:])
+        u_out = np.max(np.reshape(u_out, [-1, n_split] + output_shape), 1)
+        l_out = np.min(np.reshape(l_out, [-1, n_split] + output_shape), 1)
     return u_out, l_out
 
 
-- 
2.43.0


From ee62b1c2b030fb38a02d8cda1ae876198ab99066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 29/57] fix: changing the perturbation domain of a converted
 model must reach the bounds on its inputs

---
 src/decomon/models/models.py |  5 +++-
 src/decomon/models/utils.py  | 45 +++++++++++++++++++++---------------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 572ac07..04e5fce 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -66,9 +66,12 @@ class DecomonModel(keras.Model):
     def set_domain(self, perturbation_domain: PerturbationDomain) -> None:
         perturbation_domain = _check_domain(self.perturbation_domain, perturbation_domain)
         self.perturbation_domain = perturbation_domain
-        for layer in self.layers:
+        for layer in self._flatten_layers(include_self=False):
             if hasattr(layer, "perturbation_domain"):
                 layer.perturbation_domain = self.perturbation_domain
+            for spec_name in ("inputs_outputs_spec", "inputs_outputs_spec_from", "inputs_outputs_spec_to"):
+                if hasattr(layer, spec_name):
+                    getattr(layer, spec_name).perturbation_domain = self.perturbation_domain
 
     def freeze_weights(self) -> None:
         for layer in self.layers:
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 80b5cfc..0402081 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -86,6 +86,27 @@ def check_model2convert_inputs(model: Model) -> None:
         raise ValueError("The model must have a flattened input to be converted.")
 
 
+class BallConstantBounds(Layer):
+    """Constant upper and lower bounds on the points of a ball, given its center."""
+
+    def __init__(self, perturbation_domain: BallDomain, **kwargs: Any):
+        super().__init__(**kwargs)
+        self.perturbation_domain = perturbation_domain
+
+    def call(self, inputs: BackendTensor, **kwargs: Any) -> list[BackendTensor]:
+        # whatever the norm, each coordinate varies of at most the radius
+        radius = K.cast(self.perturbation_domain.eps, dtype=inputs.dtype)
+        return [inputs + radius, inputs - radius]
+
+    def compute_output_shape(self, input_shape: tuple[Optional[int], ...]) -> list[tuple[Optional[int], ...]]:
+        return [input_shape, input_shape]
+
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"perturbation_domain": self.perturbation_domain})
+        return config
+
+
 def get_input_tensors(
     model: Model,
     perturbation_domain: PerturbationDomain,
@@ -119,25 +140,11 @@ def get_input_tensors(
             b = K.zeros_like(z_tensor[:, 0])
 
     elif isinstance(perturbation_domain, BallDomain):
-        if perturbation_domain.p == np.inf:
-            radius = perturbation_domain.eps
-            u_c_tensor = Lambda(
-                lambda var: var + K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-            )(z_tensor)
-            if ibp:
-                l_c_tensor = Lambda(
-                    lambda var: var - K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-                )(z_tensor)
-            if affine:
-                W = BatchedIdentityLike()(u_c_tensor)
-                b = K.zeros_like(u_c_tensor)
-
-        else:
-            W = BatchedIdentityLike()(z_tensor)
-            b = K.zeros_like(z_tensor)
-            if ibp:
-                u_c_tensor = perturbation_domain.get_upper(z_tensor, W, b)
-                l_c_tensor = perturbation_domain.get_lower(z_tensor, W, b)
+        W = BatchedIdentityLike()(z_tensor)
+        b = K.zeros_like(z_tensor)
+        if ibp:
+            # use a layer so that changing the domain of the model updates also the constant bounds on its inputs
+            u_c_tensor, l_c_tensor = BallConstantBounds(perturbation_domain, dtype=z_tensor.dtype)(z_tensor)
 
     else:
         raise NotImplementedError(f"Not implemented for perturbation domain type {type(perturbation_domain)}")
-- 
2.43.0


From f3eed44f73c9d03830e47306d2a008d578d25b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 30/57] fix: get_range_noise with a negative eps must use the
 ball of the model

---
 src/decomon/wrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 9b3156d..467529e 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -684,6 +684,10 @@ def get_range_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
+    # domain actually used (a negative eps means keeping the domain of the model)
+    eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
     input_dim = np.prod(input_shape)
-- 
2.43.0


From da7ac62a36b247a917dd8af3d7553cf57c5c6dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 31/57] fix: labels given to the adversarial functions are
 indexes or indicators of the outputs of the model

---
 src/decomon/wrapper.py | 77 +++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 467529e..ebdbb12 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -27,14 +27,34 @@ def _get_dual_ord(p: float) -> float:
         raise ValueError(f"p must be equal to 1, 2, or np.inf, unknown value {p}.")
 
 
-def prepare_labels(labels: LabelType, n_batch: int) -> np.typing.NDArray[np.int_]:
-    if isinstance(labels, (int, np.int_)):
-        labels = np.zeros((n_batch, 1), dtype=np.int_) + labels
-    elif not isinstance(labels, np.ndarray):
-        labels = np.array(labels).reshape((n_batch, -1))
+def prepare_labels(labels: LabelType, n_batch: int, n_outputs: int) -> np.typing.NDArray[np.int_]:
+    """Convert labels into indicators of the selected outputs.
+
+    Args:
+        labels: either an integer (the index of the label, common to all samples),
+            either an array giving for each sample the indexes of its labels,
+            either an array giving for each sample the indicators (0 or 1) of all labels.
+        n_batch: number of samples
+        n_outputs: number of outputs of the model
+
+    Returns:
+        array of 0 and 1, of shape (n_batch, n_outputs)
+
+    """
+    if isinstance(labels, (int, np.integer)):
+        labels = np.full((n_batch, 1), labels, dtype="int_")
     else:
-        labels = labels.reshape((n_batch, -1))
-    return labels.astype("int_")
+        labels = np.array(labels).reshape((n_batch, -1)).astype("int_")
+        if labels.shape[-1] == n_outputs and np.isin(labels, (0, 1)).all():
+            return labels
+    indicators = np.zeros((n_batch, n_outputs), dtype="int_")
+    np.put_along_axis(indicators, labels, 1, axis=-1)
+    return indicators
+
+
+def _get_n_outputs(decomon_model: DecomonModel) -> int:
+    """Number of outputs bounded by the model (i.e. number of labels)."""
+    return int(np.prod(decomon_model.output_shape[-1][1:]))
 
 
 ##### ADVERSARIAL ROBUSTTNESS #####
@@ -101,9 +121,10 @@ def get_adv_box(
 
     z = np.concatenate([x_min, x_max], 1)
 
-    source_labels = prepare_labels(source_labels, n_batch)
+    n_outputs = _get_n_outputs(decomon_model)
+    source_labels = prepare_labels(source_labels, n_batch, n_outputs)
     if target_labels is not None:
-        target_labels = prepare_labels(target_labels, n_batch)
+        target_labels = prepare_labels(target_labels, n_batch, n_outputs)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -311,18 +332,10 @@ def check_adv_box(
     x_max = x_max.reshape((-1, 1, input_dim))
 
     z = np.concatenate([x_min, x_max], 1)
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1)) + source_labels
-
-    if isinstance(source_labels, list):
-        source_labels = np.array(source_labels).reshape((n_batch, -1))
-
-    source_labels = source_labels.reshape((n_batch, -1))
-    source_labels = source_labels.astype(np.int_)
-
+    n_outputs = _get_n_outputs(decomon_model)
+    source_labels = prepare_labels(source_labels, n_batch, n_outputs)
     if target_labels is not None:
-        target_labels = target_labels.reshape((n_batch, -1))
-        target_labels = target_labels.astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, n_outputs)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -341,11 +354,7 @@ def check_adv_box(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
@@ -415,7 +424,7 @@ def check_adv_box(
         else:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
 
-        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels)
+        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels, target_labels)
 
 
 #### FORMAL BOUNDS ######
@@ -965,14 +974,10 @@ def get_adv_noise(
     x_reshaped = x + 0 * x
     x_reshaped = x_reshaped.reshape([-1] + input_shape)
 
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-    source_labels = np.array(source_labels).reshape((n_batch, -1)).astype(np.int_)
-
+    n_outputs = _get_n_outputs(decomon_model)
+    source_labels = prepare_labels(source_labels, n_batch, n_outputs)
     if target_labels is not None:
-        if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-        target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, n_outputs)
 
     if batch_size > 0:
         # split
@@ -984,11 +989,7 @@ def get_adv_noise(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
-- 
2.43.0


From 6d2e8a07440483c760461bbfea5237d218b95edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 32/57] fix: affine bounds deduced from constant ones are
 functions of the inputs of the model

---
 src/decomon/models/backward_cloning.py |  4 ++--
 src/decomon/models/convert.py          |  8 ++++++--
 src/decomon/models/utils.py            | 11 ++++++++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index e57f9a6..692fcd5 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -29,6 +29,7 @@ from decomon.models.crown import Convert2BackwardMode, Fuse, MergeWithPrevious
 from decomon.models.forward_cloning import OutputMapDict
 from decomon.models.utils import (
     Convert2Mode,
+    box_from_ibp_inputs,
     ensure_functional_model,
     get_depth_dict,
     get_input_dim,
@@ -483,7 +484,6 @@ def convert_backward(
             input_dim=input_dim,
         )(output_node)
         if mode_to != mode_from and mode_from == ForwardMode.IBP:
-            f_input = Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))
-            output_node[0] = f_input([input_tensors[1], input_tensors[0]])
+            output_node[0] = box_from_ibp_inputs(input_tensors)
         output += output_node
     return input_tensors, output, backward_map, toto
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 73d354e..b6b7663 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -6,7 +6,7 @@ from keras.layers import InputLayer, Layer
 from keras.models import Model
 
 from decomon.backward_layers.core import BackwardLayer
-from decomon.core import BoxDomain, PerturbationDomain, Slope, get_mode
+from decomon.core import BoxDomain, ForwardMode, PerturbationDomain, Slope, get_mode
 from decomon.layers.convert import to_decomon
 from decomon.models.backward_cloning import convert_backward
 from decomon.models.forward_cloning import (
@@ -20,6 +20,7 @@ from decomon.models.utils import (
     Convert2Mode,
     ConvertMethod,
     FeedDirection,
+    box_from_ibp_inputs,
     check_model2convert_inputs,
     ensure_functional_model,
     get_direction,
@@ -163,9 +164,12 @@ def convert(
         outputs_by_node = split_outputs(output, mode_from, perturbation_domain)
         output = []
         for output_node in outputs_by_node:
-            output += Convert2Mode(
+            output_node = Convert2Mode(
                 mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
             )(output_node)
+            if mode_to != mode_from and mode_from == ForwardMode.IBP:
+                output_node[0] = box_from_ibp_inputs(input_tensors)
+            output += output_node
 
     # build decomon model
     return input_tensors, output, layer_map, forward_map
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 0402081..877d1e1 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -294,6 +294,12 @@ def split_outputs(
     return inputs_outputs_spec.split_inputsformode_to_merge(output)
 
 
+def box_from_ibp_inputs(input_tensors: list[keras.KerasTensor]) -> keras.KerasTensor:
+    """Corners of the box defined by the constant bounds on the inputs of the model"""
+    u_c, l_c = input_tensors
+    return Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))([l_c, u_c])
+
+
 def split_tensors(tensors: list[keras.KerasTensor], n_parts: int) -> list[list[keras.KerasTensor]]:
     """Split a list of tensors into parts of same length"""
     n = len(tensors) // n_parts
@@ -349,7 +355,10 @@ class Convert2Mode(Layer):
 
         if compute_dummy_affine:
             x = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
-            w = K.zeros_like(BatchedIdentityLike()(l_c))
+            if self.input_dim > 0:
+                w = K.repeat(K.expand_dims(K.zeros_like(l_c), 1), self.input_dim, axis=1)
+            else:
+                w = K.zeros_like(BatchedIdentityLike()(l_c))
             w_u = w
             b_u = u_c
             w_l = w
-- 
2.43.0


From 3e098ded420192f71012610c0e44a356c4b2b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 33/57] fix: forward methods must take into account the
 back_bounds given to clone

---
 src/decomon/models/backward_cloning.py | 21 +++++++++++++++++++--
 src/decomon/models/convert.py          |  6 +++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 692fcd5..1868db3 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -4,6 +4,7 @@ from typing import Any, Optional, Union
 
 import keras
 import keras.ops as K
+import numpy as np
 from keras.config import floatx
 from keras.layers import Concatenate, Lambda, Layer
 from keras.models import Model
@@ -74,8 +75,8 @@ def reshape_bounds(
     mode: ForwardMode,
     perturbation_domain: PerturbationDomain,
 ) -> list[keras.KerasTensor]:
-    """Reshape flattened bounds into the bounds of a tensor of given shape (batch axis excluded)"""
-    if len(shape) == 1:
+    """Reshape bounds into the bounds of a tensor of given shape (batch axis excluded)"""
+    if len(bounds[-1].shape) - 1 == len(shape) == 1:
         return bounds
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=False, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(
@@ -89,6 +90,22 @@ def reshape_bounds(
     return inputs_outputs_spec.extract_outputsformode_from_fulloutputs([x, u_c, w_u, b_u, l_c, w_l, b_l, h, g])
 
 
+def apply_back_bounds(
+    bounds: list[keras.KerasTensor],
+    back_bounds: list[keras.KerasTensor],
+    mode: ForwardMode,
+    perturbation_domain: PerturbationDomain,
+) -> list[keras.KerasTensor]:
+    """Deduce from the bounds on the outputs of a model the ones on an affine function of these outputs"""
+    if len(back_bounds) == 1:
+        C = back_bounds[0]
+        back_bounds = [C, K.zeros_like(C[:, 0])] * 2
+    n_out = int(np.prod(bounds[-1].shape[1:]))
+    bounds = reshape_bounds(bounds, (n_out,), mode, perturbation_domain)
+    back_bounds = to_list(Fuse(mode)(bounds + back_bounds))
+    return to_list(Convert2BackwardMode(mode, perturbation_domain)(bounds + back_bounds))
+
+
 def retrieve_layer(
     node: Node,
     layer_fn: Callable[[Layer], BackwardLayer],
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index b6b7663..a9c6a17 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -8,7 +8,7 @@ from keras.models import Model
 from decomon.backward_layers.core import BackwardLayer
 from decomon.core import BoxDomain, ForwardMode, PerturbationDomain, Slope, get_mode
 from decomon.layers.convert import to_decomon
-from decomon.models.backward_cloning import convert_backward
+from decomon.models.backward_cloning import apply_back_bounds, convert_backward
 from decomon.models.forward_cloning import (
     LayerMapDict,
     OutputMapDict,
@@ -162,6 +162,10 @@ def convert(
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
         outputs_by_node = split_outputs(output, mode_from, perturbation_domain)
+        if len(back_bounds):
+            if len(outputs_by_node) > 1:
+                raise NotImplementedError()
+            outputs_by_node = [apply_back_bounds(outputs_by_node[0], back_bounds, mode_from, perturbation_domain)]
         output = []
         for output_node in outputs_by_node:
             output_node = Convert2Mode(
-- 
2.43.0


From 74a970d4bcc1b8cbac445c8316924722cff86381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 34/57] fix: get_adv_box with backward bounds handles several
 source labels and the target labels

---
 src/decomon/wrapper.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index ebdbb12..70d6ef4 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -163,6 +163,24 @@ def get_adv_box(
             )
 
     else:
+        if decomon_model.backward_bounds and np.any(source_labels.sum(-1) > 1):
+            # the differences with a single source label are bounded at each call
+            ranks = np.cumsum(source_labels, -1) * source_labels
+            return np.max(
+                [
+                    get_adv_box(
+                        decomon_model,
+                        x_min,
+                        x_max,
+                        (ranks == np.minimum(i, ranks.max(-1, keepdims=True))) * source_labels,
+                        1 - source_labels if target_labels is None else target_labels,
+                        -1,
+                    )
+                    for i in range(1, ranks.max() + 1)
+                ],
+                0,
+            )
+
         ibp = decomon_model.ibp
         affine = decomon_model.affine
         n_label = source_labels.shape[-1]
@@ -192,7 +210,8 @@ def get_adv_box(
 
             # add penalties on biases
             if backward:
-                return np.max(u_c, -1)
+                upper = np.reshape(u_c, (-1, shape, 1)).copy()
+                s_tensor_reshaped = np.ones_like(s_tensor_reshaped[:, :1])
             else:
                 upper = u_c[:, :, None] - l_c[:, None]
             const = upper.max() - upper.min()
@@ -235,14 +254,16 @@ def get_adv_box(
                     + b_u
                 )
 
-                return upper.max(-1)
+                upper = np.reshape(upper, (-1, shape, 1))
+                s_tensor_reshaped = np.ones_like(s_tensor_reshaped[:, :1])
 
             # add penalties on biases
-            upper = (
-                np.sum(np.maximum(w_u_f, 0) * z_tensor[:, 1, :, None, None], 1)
-                + np.sum(np.minimum(w_u_f, 0) * z_tensor[:, 0, :, None, None], 1)
-                + b_u_f
-            )  # (-1, shape, shape)
+            if not backward:
+                upper = (
+                    np.sum(np.maximum(w_u_f, 0) * z_tensor[:, 1, :, None, None], 1)
+                    + np.sum(np.minimum(w_u_f, 0) * z_tensor[:, 0, :, None, None], 1)
+                    + b_u_f
+                )  # (-1, shape, shape)
             const = upper.max() - upper.min()
             discard_mask_s = t_tensor_reshaped[:, :, None] * s_tensor_reshaped[:, None, :]
 
-- 
2.43.0


From 84821fe3295c851422be1774be0c917f726a507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 35/57] fix: get_adv_noise must work with affine bounds, with
 Keras models and use the L2 norm

---
 src/decomon/wrapper.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 70d6ef4..107619d 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -982,7 +982,9 @@ def get_adv_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
-    eps = model.perturbation_domain.eps
+    # domain actually used (a negative eps means keeping the domain of the model)
+    eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
@@ -1094,7 +1096,7 @@ def get_adv_noise(
             upper_0 = np.sum(w_u_f * z_tensor[:, :, None, None], 1) + b_u_f
             # compute dual norm
             if p == 2:
-                upper_1 = eps * np.sum(w_u_f**2, 1)
+                upper_1 = eps * np.sqrt(np.sum(w_u_f**2, 1))
             elif p == 1:
                 upper_1 = eps * np.max(np.abs(w_u_f), 1)
             elif p == np.inf:
@@ -1112,9 +1114,9 @@ def get_adv_noise(
 
         if ibp and affine:
             z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
-        if not ibp and affine:
+        elif not ibp and affine:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
-        if ibp and not affine:
+        elif ibp and not affine:
             u_c, l_c = output[:2]
         else:
             raise NotImplementedError("not ibp and not affine not implemented")
-- 
2.43.0


From a2dacf531a04bcf050690f718a8d20930a4bb678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 36/57] fix: refine_box must repeat the labels for the
 sub-boxes, split the first box at random and handle get_range_box

---
 src/decomon/wrapper.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 107619d..a19ac00 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -849,7 +849,7 @@ def refine_box(
     target_labels: Optional[npt.NDArray[np.int_]] = None,
     batch_size: int = -1,
     random: bool = True,
-) -> npt.NDArray[np.float_]:
+) -> Union[npt.NDArray[np.float_], tuple[npt.NDArray[np.float_], npt.NDArray[np.float_]]]:
     if func.__name__ not in [
         elem.__name__ for elem in [get_upper_box, get_lower_box, get_adv_box, check_adv_box, get_range_box]
     ]:
@@ -893,6 +893,8 @@ def refine_box(
                 return results.reshape((n_x, n_split, -1))
             if func.__name__ == get_lower_box.__name__:
                 return results.reshape((n_x, n_split, -1))
+            # get_range_box
+            return tuple(result.reshape((n_x, n_split, -1)) for result in results)
 
         if func.__name__ in [elem.__name__ for elem in [get_adv_box, check_adv_box]]:
             results = func(
@@ -916,7 +918,7 @@ def refine_box(
                 i = int(np.argmax(np.max(index_max[n_i, :count], -1)))
                 j = int(np.argmax(index_max[n_i, i]))
             else:
-                i = np.random.randint(count - 1)
+                i = np.random.randint(count)
                 j = np.random.randint(input_dim)
 
             z_min = x_min_split[n_i, i] + 0.0
@@ -936,7 +938,16 @@ def refine_box(
     x_min_split = x_min_split.reshape((-1, input_dim))
     x_max_split = x_max_split.reshape((-1, input_dim))
 
+    # each sub-box has the labels of the original box
+    n_outputs = _get_n_outputs(decomon_model)
+    if source_labels is not None:
+        source_labels = np.repeat(prepare_labels(source_labels, n_x, n_outputs), n_split, axis=0)
+    if target_labels is not None:
+        target_labels = np.repeat(prepare_labels(target_labels, n_x, n_outputs), n_split, axis=0)
+
     results = priv_func(x_min_split, x_max_split)
+    if func.__name__ == get_range_box.__name__:
+        return np.max(results[0], 1), np.min(results[1], 1)
     if maximize:
         return np.max(results, 1)
     else:
-- 
2.43.0


From b76e8ab8f0d86ca3c6f42406730beeb9e137aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 37/57] fix: docstring of check_adv_box

---
 src/decomon/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index a19ac00..fda1caa 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -310,7 +310,7 @@ def check_adv_box(
     target_labels: Optional[npt.NDArray[np.int_]] = None,
     batch_size: int = -1,
 ) -> npt.NDArray[np.float_]:
-    """if the output is negative, then it is a formal guarantee that there is no adversarial examples
+    """if the output is positive, then it is a formal guarantee that there is an adversarial example
 
     Args:
         model: either a Keras model or a Decomon model
@@ -326,7 +326,7 @@ def check_adv_box(
             calls to minibatches
 
     Returns:
-        numpy array, vector with upper bounds for adversarial attacks
+        numpy array, vector with lower bounds on the maximum over the box of the adversarial scores
     """
     if np.min(x_max - x_min) < 0:
         raise UserWarning("Inconsistency Error: x_max < x_min")
-- 
2.43.0


From bb9da8faea479b282db2679c3a4d08c5c1513870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 38/57] fix: get_adv_loss applies softmax in hybrid mode only
 when asked

---
 src/decomon/metrics/loss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fce6797..2458bc8 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -309,9 +309,10 @@ def get_adv_loss(
             u_c = y_pred[:, -1, n_comp : n_comp + n_out]
             l_c = y_pred[:, -1, n_comp + n_out :]
 
-            _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
-                [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
-            )
+            if softmax:
+                _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
+                    [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
+                )
 
         else:
             raise ValueError(f"Unknown mode {mode}")
-- 
2.43.0


From e3f980831ebc96002946579f03f00a5231c73648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 39/57] fix: losses read the single component of a ball domain

---
 src/decomon/metrics/loss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 2458bc8..925f9bd 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -121,7 +121,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             u_c = y_pred[:, :, 0]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -130,7 +130,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_u = y_pred[:, -1, n_comp : n_comp + n_out]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -183,7 +183,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             l_c = y_pred[:, :, 1]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -192,7 +192,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_l = y_pred[:, -1, n_comp + n_out :]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -281,7 +281,7 @@ def get_adv_loss(
                 u_c, l_c = softmax_([u_c, l_c], mode=mode, perturbation_domain=perturbation_domain, clip=False)
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -297,7 +297,7 @@ def get_adv_loss(
                 )
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
-- 
2.43.0


From e5f7d4fb0b0d4c2ea7a8e0333889fc56fba9f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 40/57] fix: robustness losses use an identity by sample

---
 src/decomon/metrics/loss.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 925f9bd..fa9852b 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -14,6 +14,7 @@ from decomon.core import (
     PerturbationDomain,
     get_mode,
 )
+from decomon.keras_utils import BatchedIdentityLike
 from decomon.layers.activations import softmax as softmax_
 from decomon.layers.core import DecomonLayer
 from decomon.models.models import DecomonModel
@@ -347,12 +348,6 @@ def get_adv_loss(
     return loss_adv
 
 
-def _create_identity_tensor_like(x: Tensor) -> BackendTensor:
-    identity_tensor = K.identity(x.shape[-1])
-    n_repeat = int(np.prod(x.shape[:-1]))
-    return K.reshape(K.repeat(identity_tensor[None], n_repeat, axis=0), tuple(x.shape) + (-1,))
-
-
 # create a layer
 class DecomonLossFusion(DecomonLayer):
     original_keras_layer_class = Layer
@@ -418,7 +413,7 @@ class DecomonLossFusion(DecomonLayer):
                 upper = upper - (const + K.cast(1, const.dtype)) * (1 - M)
                 return K.max(upper, (-1, -2))
 
-            source_tensor = _create_identity_tensor_like(l_c)
+            source_tensor = BatchedIdentityLike()(l_c)
 
             score = K.concatenate([adv_ibp(u_c, l_c, source_tensor[:, i])[:, None] for i in range(shape)], -1)
             return K.maximum(
@@ -497,7 +492,7 @@ class DecomonRadiusRobust(DecomonLayer):
         # compute center
         x_0 = (x[:, 0] + x[:, 1]) / 2.0
         radius = K.maximum((x[:, 1] - x[:, 0]) / 2.0, K.cast(epsilon(), dtype=x.dtype))
-        source_tensor = _create_identity_tensor_like(b_l)
+        source_tensor = BatchedIdentityLike()(b_l)
 
         shape = b_l.shape[-1]
 
@@ -533,7 +528,7 @@ class DecomonRadiusRobust(DecomonLayer):
         # compute center
         x_0 = (x[:, 0] + x[:, 1]) / 2.0
         radius = K.maximum((x[:, 1] - x[:, 0]) / 2.0, K.cast(epsilon(), dtype=x.dtype))
-        source_tensor = _create_identity_tensor_like(b_l)
+        source_tensor = BatchedIdentityLike()(b_l)
 
         shape = b_l.shape[-1]
 
-- 
2.43.0


From 64b92f1cb8e4e46576165b7855cff3c5c92d2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 41/57] fix: categorical_cross_entropy passes its perturbation
 domain and dc_decomp to sum

---
 src/decomon/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/metrics/utils.py b/src/decomon/metrics/utils.py
index 3cc9a7e..859e63b 100644
--- a/src/decomon/metrics/utils.py
+++ b/src/decomon/metrics/utils.py
@@ -19,7 +19,7 @@ def categorical_cross_entropy(
         perturbation_domain = BoxDomain()
     outputs = exp(inputs, mode=mode, perturbation_domain=perturbation_domain, dc_decomp=dc_decomp)
     # step 2: sum
-    outputs = sum(outputs, axis=-1, mode=mode)
+    outputs = sum(outputs, axis=-1, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     # step 3: log
     outputs = log(outputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     outputs = expand_dims(outputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain, axis=-1)
-- 
2.43.0


From b70e8d413ecdebb46121c1d54ca897114489a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 42/57] fix: AdversarialScore gives the backward bounds in the
 right order

---
 src/decomon/metrics/metric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 45b600d..18583de 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -232,7 +232,13 @@ class AdversarialScore(AdversarialCheck):
         if self.mode == MetricMode.BACKWARD:
             w_u_b, b_u_b, w_l_b, b_l_b, _ = inputs[-5:]
             adv_b = _get_backward_score(
-                z, w_u_b, b_u_b, w_l_b, b_l_b, y_tensor, perturbation_domain=self.perturbation_domain
+                z,
+                w_u=w_l_b,
+                b_u=b_l_b,
+                w_l=w_u_b,
+                b_l=b_u_b,
+                source_tensor=y_tensor,
+                perturbation_domain=self.perturbation_domain,
             )
             adv_score = K.minimum(adv_score, adv_b)
 
-- 
2.43.0


From 8c0053883b8651a31a0a682c3254821678bb6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 43/57] fix: ibp adversarial scores ignore classes that are not
 sources

---
 src/decomon/metrics/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 18583de..debae4d 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -398,7 +398,7 @@ def _get_ibp_score(
 
     score_u = (
         l_c_reshaped * target_tensor
-        - K.expand_dims(K.min(u_c_reshaped * source_tensor, -1), -1)
+        - K.expand_dims(K.min(u_c_reshaped * source_tensor + 1e6 * (1 - source_tensor), -1), -1)
         - 1e6 * (1 - target_tensor)
     )
 
-- 
2.43.0


From fb76c51464db7074593035ca090ce60d03080623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 44/57] fix: builders of metric models give the layers the
 inputs they expect

---
 src/decomon/metrics/metric.py | 42 +++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index debae4d..6f7d551 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -245,6 +245,16 @@ class AdversarialScore(AdversarialCheck):
         return adv_score
 
 
+def _get_metric_inputs(decomon_model: DecomonModel) -> list[Tensor]:
+    """Tensors expected by the metric layers (without the labels): the input `z` of the model (twice), then its bounds."""
+    z = decomon_model.inputs[0]
+    if decomon_model.affine:
+        # the outputs of an affine model begin with its input
+        return [z] + list(decomon_model.outputs)
+    else:
+        return [z, z] + list(decomon_model.outputs)
+
+
 def build_formal_adv_check_model(decomon_model: DecomonModel) -> keras.Model:
     """automatic design on a Keras  model which predicts a certificate of adversarial robustness
 
@@ -257,14 +267,12 @@ def build_formal_adv_check_model(decomon_model: DecomonModel) -> keras.Model:
     # check type and that backward pass is available
 
     perturbation_domain = decomon_model.perturbation_domain
-    layer = AdversarialCheck(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
+    layer = AdversarialCheck(decomon_model.ibp, decomon_model.affine, MetricMode.FORWARD, perturbation_domain)
+    n_out = decomon_model.outputs[-1].shape[1:]
     y_out = Input(n_out)
 
-    adv_score = layer(output + [y_out])
-    adv_model = Model(input + [y_out], adv_score)
+    adv_score = layer(_get_metric_inputs(decomon_model) + [y_out])
+    adv_model = Model(decomon_model.inputs + [y_out], adv_score)
     return adv_model
 
 
@@ -280,14 +288,12 @@ def build_formal_adv_model(decomon_model: DecomonModel) -> keras.Model:
     # check type and that backward pass is available
 
     perturbation_domain = decomon_model.perturbation_domain
-    layer = AdversarialScore(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
+    layer = AdversarialScore(decomon_model.ibp, decomon_model.affine, MetricMode.FORWARD, perturbation_domain)
+    n_out = decomon_model.outputs[-1].shape[1:]
     y_out = Input(n_out)
 
-    adv_score = layer(output + [y_out])
-    adv_model = Model(input + [y_out], adv_score)
+    adv_score = layer(_get_metric_inputs(decomon_model) + [y_out])
+    adv_model = Model(decomon_model.inputs + [y_out], adv_score)
     return adv_model
 
 
@@ -344,7 +350,7 @@ class UpperScore(MetricLayer):
             upper_affine = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
             upper_score = K.minimum(upper_ibp, upper_affine)
         elif not self.ibp and self.affine:
-            _, _, w_u_f, b_u_f = inputs[:6]
+            _, _, w_u_f, b_u_f = inputs[:4]
             upper_score = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
         elif self.ibp and not self.affine:
             _, _, u_c, l_c = inputs[:4]
@@ -372,14 +378,12 @@ def build_formal_upper_model(decomon_model: DecomonModel) -> keras.Model:
     # check type and that backward pass is available
 
     perturbation_domain = decomon_model.perturbation_domain
-    layer = UpperScore(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
+    layer = UpperScore(decomon_model.ibp, decomon_model.affine, MetricMode.FORWARD, perturbation_domain)
+    n_out = decomon_model.outputs[-1].shape[1:]
     y_out = Input(n_out)
 
-    upper_score = layer(output + [y_out])
-    upper_model = Model(input + [y_out], upper_score)
+    upper_score = layer(_get_metric_inputs(decomon_model) + [y_out])
+    upper_model = Model(decomon_model.inputs + [y_out], upper_score)
     return upper_model
 
 
-- 
2.43.0


From b2bae19a19dafcdad42fe13b4501c6de950bec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 45/57] fix: docstring of AdversarialCheck

---
 src/decomon/metrics/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 6f7d551..05adc85 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -120,8 +120,8 @@ class AdversarialCheck(MetricLayer):
             inputs
 
         Returns:
-            adv_score <0 if the predictionis robust on the input convex
-            domain
+            adv_score >0 if the input convex domain contains (at least) one
+            adversarial example
         """
 
         y_tensor = inputs[-1]
-- 
2.43.0


From 0b494f39c72a98f9007b960e331f20dbba0166b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 46/57] fix: abs and min_ pass dc_decomp to minus

---
 src/decomon/layers/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 33832fc..6058341 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -910,7 +910,7 @@ def abs(
         perturbation_domain = BoxDomain()
     inputs_0 = relu_(inputs, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
     inputs_1 = relu_(
-        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        minus(inputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain),
         dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         mode=mode,
@@ -984,7 +984,7 @@ def min_(
         perturbation_domain = BoxDomain()
     return minus(
         max_(
-            minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+            minus(inputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain),
             dc_decomp=dc_decomp,
             perturbation_domain=perturbation_domain,
             mode=mode,
@@ -992,6 +992,7 @@ def min_(
             finetune=finetune,
             **kwargs,
         ),
+        dc_decomp=dc_decomp,
         mode=mode,
         perturbation_domain=perturbation_domain,
     )
-- 
2.43.0


From 2d2892510819c09f89f1500e41da6edc9ef63a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 47/57] fix: convert_forward passes dc_decomp to the layer
 including the input dimension

---
 src/decomon/models/forward_cloning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index 404b54b..308611a 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -128,6 +128,7 @@ def convert_forward(
         layer_fn,
         input_dim=input_dim,
         slope=slope,
+        dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         ibp=ibp,
         affine=affine,
-- 
2.43.0


From ed502f3facc65f6566bfc32e8e81c99c4e535a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 48/57] fix: negative axes in the functions reducing, splitting
 or expanding bounds

---
 src/decomon/layers/utils.py | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 6058341..f03927b 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -174,8 +174,8 @@ def sum(
         u_c_out, l_c_out = empty_tensor, empty_tensor
 
     if affine:
-        if axis == -1:
-            axis_w = -1
+        if axis < 0:
+            axis_w = axis
         else:
             axis_w = axis + 1
         w_u_out = K.sum(w_u, axis=axis_w)
@@ -306,7 +306,7 @@ def max_(
         b_u_tmp = b_u_list[0] + 0 * (b_u_list[0])
         b_l_tmp = b_l_list[0] + 0 * (b_l_list[0])
 
-        if axis == -1:
+        if axis < 0:
             w_u_list = K.split(w_u, max_dim, axis)
             w_l_list = K.split(w_l, max_dim, axis)
         else:
@@ -379,7 +379,7 @@ def max_(
     if mode in [ForwardMode.HYBRID, ForwardMode.AFFINE]:
         b_u_out = K.squeeze(b_u_out, axis)
         b_l_out = K.squeeze(b_l_out, axis)
-        if axis == -1:
+        if axis < 0:
             w_u_out = K.squeeze(w_u_out, axis)
             w_l_out = K.squeeze(w_l_out, axis)
         else:
@@ -634,10 +634,10 @@ def broadcast(
             u_c = K.expand_dims(u_c, axis)
             l_c = K.expand_dims(l_c, axis)
 
-    if axis != -1:
+    if axis >= 0:
         axis_w = axis + 1
     else:
-        axis_w = -1
+        axis_w = axis
 
     if affine:
         for _ in range(n):
@@ -677,11 +677,8 @@ def split(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    axis = axis % len(input_shape)  # axes can be counted from the last one
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
@@ -702,10 +699,8 @@ def split(
         b_u_list = K.split(b_u, n, axis=axis)
         b_l_list = K.split(b_l, n, axis=axis)
 
-        if axis != -1:
-            axis += 1
-        w_u_list = K.split(w_u, n, axis=axis)
-        w_l_list = K.split(w_l, n, axis=axis)
+        w_u_list = K.split(w_u, n, axis=axis + 1)
+        w_l_list = K.split(w_l, n, axis=axis + 1)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
             empty_tensor_list,
@@ -762,11 +757,8 @@ def sort(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    axis = axis % len(input_shape)  # axes can be counted from the last one
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
@@ -1019,7 +1011,7 @@ def expand_dims(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
+    if axis < 0:
         axis_w = axis
     else:
         axis_w = axis + 1
-- 
2.43.0


From 1a1852631c19277a6a65e34c7bc24a5f03fd2e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 49/57] fix: reset_finetuning

---
 src/decomon/backward_layers/backward_layers.py | 6 ++++++
 src/decomon/layers/decomon_layers.py           | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index c067154..d7e73a9 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -401,6 +401,12 @@ class BackwardActivation(BackwardLayer):
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
+    def reset_finetuning(self) -> None:
+        if self.finetune and self.activation_name != "linear" and not isinstance(self.perturbation_domain, GridDomain):
+            self.alpha_b_l.assign(K.ones_like(self.alpha_b_l))
+            if self.activation_name[:4] != "relu":
+                self.alpha_b_u.assign(K.ones_like(self.alpha_b_u))
+
     def freeze_alpha(self) -> None:
         if not self.frozen_alpha:
             if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 0431101..59a40a5 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -625,10 +625,10 @@ class DecomonActivation(DecomonLayer, Activation):
         if self.finetune and self.mode != ForwardMode.IBP:
             if self.activation_name != "linear":
                 if self.activation_name[:4] == "relu":
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+                    self.beta_l_f.assign(K.ones_like(self.beta_l_f))
                 else:
-                    self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+                    self.beta_u_f.assign(K.ones_like(self.beta_u_f))
+                    self.beta_l_f.assign(K.ones_like(self.beta_l_f))
 
     def freeze_alpha(self) -> None:
         if not self.frozen_alpha:
-- 
2.43.0


From 53b5ddc0aaa9f74b4d623f3bd86d189ae71331b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 50/57] fix: one backward slope parameter by unit of
 multi-dimensional activations

---
 src/decomon/backward_layers/backward_layers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index d7e73a9..5ad3d92 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -297,20 +297,22 @@ class BackwardActivation(BackwardLayer):
                     self.finetune_param.append(self.alpha_b_l)
 
             else:
+                # one slope by unit, to be multiplied with bounds that are not yet flattened
+                alpha_shape = tuple(input_shape[-1][1:])
                 self.alpha_b_l = self.add_weight(
-                    shape=(input_dim,),
+                    shape=alpha_shape,
                     initializer="ones",
                     name="alpha_l_b",
                     regularizer=None,
                     constraint=ClipAlpha(),
                 )
-                alpha_b_l = np.ones((input_dim,))
+                alpha_b_l = np.ones(alpha_shape)
                 # alpha_b_l[0] = 1
                 self.alpha_b_l.assign(alpha_b_l)
 
                 if self.activation_name[:4] != "relu":
                     self.alpha_b_u = self.add_weight(
-                        shape=(input_dim,),
+                        shape=alpha_shape,
                         initializer="ones",
                         name="alpha_u_b",
                         regularizer=None,
-- 
2.43.0


From 6b3a47bba043e699b3aacd2d30ce4bf7576588a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 51/57] fix: crossentropy models use the perturbation domain of
 the model

---
 src/decomon/metrics/loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fa9852b..6ac3b4b 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -598,7 +598,9 @@ def build_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, backward=model.backward_bounds)
+    layer_fusion = DecomonLossFusion(
+        mode=mode, perturbation_domain=perturbation_domain, backward=model.backward_bounds
+    )
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
@@ -622,7 +624,7 @@ def build_asymptotic_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, asymptotic=True)
+    layer_fusion = DecomonLossFusion(mode=mode, perturbation_domain=perturbation_domain, asymptotic=True)
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
-- 
2.43.0


From a785a1a2edbdecdf5a7c45c742c05fd20b1120c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 52/57] fix: batch normalization follows the weights of the
 layer it is converted from

---
 src/decomon/layers/decomon_layers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 59a40a5..973b612 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -814,8 +814,20 @@ class DecomonBatchNormalization(DecomonLayer, BatchNormalization):
         )
 
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
-        super().build(input_shape)
+        if not self.shared:
+            super().build(input_shape)
         self.input_spec = [InputSpec(min_ndim=len(elem)) for elem in input_shape]
+        self.built = True
+
+    def share_weights(self, layer: Layer) -> None:
+        if not self.shared:
+            return
+        self.moving_mean = layer.moving_mean
+        self.moving_variance = layer.moving_variance
+        if self.center:
+            self.beta = layer.beta
+        if self.scale:
+            self.gamma = layer.gamma
 
     def call(self, inputs: list[BackendTensor], training: bool = False, **kwargs: Any) -> list[BackendTensor]:
         z_value = K.cast(0.0, self.dtype)
-- 
2.43.0


From 5bade40855f6843da97083732dd30a620b8e674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 53/57] fix: backward methods without shared weights see the
 weights of the original network

---
 src/decomon/models/convert.py | 5 +++++
 src/decomon/models/utils.py   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index a9c6a17..d440a83 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -22,6 +22,7 @@ from decomon.models.utils import (
     FeedDirection,
     box_from_ibp_inputs,
     check_model2convert_inputs,
+    copy_layer,
     ensure_functional_model,
     get_direction,
     get_ibp_affine_from_method,
@@ -121,6 +122,10 @@ def convert(
 
     # prepare the Keras Model: split non-linear activation functions into separate Activation layers
     model = preprocess_keras_model(model)
+    if not shared and get_direction(method) == FeedDirection.BACKWARD:
+        # forward and backward layers must both hold the current weights: let them share those of copied layers
+        model = _clone_keras_model(model=model, layer_fn=copy_layer)
+        shared = True
 
     layer_map: Union[LayerMapDict, dict[int, BackwardLayer]]
 
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 877d1e1..5defc04 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -226,6 +226,15 @@ def split_activation(layer: Layer) -> list[Layer]:
         return [layer_wo_activation, activation_layer]
 
 
+def copy_layer(layer: Layer) -> list[Layer]:
+    """Copy a layer, with its own weights having the current values of the original ones."""
+    new_layer = layer.__class__.from_config(layer.get_config())
+    input_tensors = layer._inbound_nodes[0].input_tensors
+    new_layer(input_tensors[0] if len(input_tensors) == 1 else input_tensors)  # build it
+    new_layer.set_weights(layer.get_weights())
+    return [new_layer]
+
+
 def preprocess_layer(layer: Layer) -> list[Layer]:
     return split_activation(layer)
 
-- 
2.43.0


From 79a1b188659a957b8935b136f050ba352fb8ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 54/57] fix: upper linear hull of max over intervals reduced to
 a point

---
 src/decomon/layers/utils_pooling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils_pooling.py b/src/decomon/layers/utils_pooling.py
index 541d5eb..6883728 100644
--- a/src/decomon/layers/utils_pooling.py
+++ b/src/decomon/layers/utils_pooling.py
@@ -76,7 +76,7 @@ def get_upper_linear_hull_max(
     u_c_reshaped = K.expand_dims(u_c, -1)  # (1, shape, n_dim, 1)
 
     # detect collapsed dimensions: lower[i]==upper[i]
-    index_collapse = o_value - K.sign(l_c_reshaped - u_c_reshaped)
+    index_collapse = o_value + K.sign(l_c_reshaped - u_c_reshaped)
 
     corners = mask * l_c_reshaped + (o_value - mask) * (u_c_reshaped)  # (1, shape, n_dim, n_dim)
     corners_collapse = mask * l_c_reshaped + (o_value - mask) * (u_c_reshaped + index_collapse)
-- 
2.43.0


From e61203c4bd475bb5d08b35ae16275d2cccadcdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 55/57] fix: slope in the configuration of DecomonActivation

---
 src/decomon/layers/decomon_layers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 973b612..a002845 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -570,6 +570,11 @@ class DecomonActivation(DecomonLayer, Activation):
         self.activation = activations.get(activation)
         self.activation_name = activation
 
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"slope": self.slope})
+        return config
+
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
         if self.finetune and self.mode in [ForwardMode.HYBRID, ForwardMode.AFFINE]:
             shape = input_shape[-1][1:]
-- 
2.43.0


From e9fccbe2f6272fc920183982800a42dd102e4a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 56/57] fix: input_dim in the configuration of Convert2Mode

---
 src/decomon/models/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 5defc04..f3cb084 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -396,7 +396,12 @@ class Convert2Mode(Layer):
     def get_config(self) -> dict[str, Any]:
         config = super().get_config()
         config.update(
-            {"mode_from": self.mode_from, "mode_to": self.mode_to, "perturbation_domain": self.perturbation_domain}
+            {
+                "mode_from": self.mode_from,
+                "mode_to": self.mode_to,
+                "perturbation_domain": self.perturbation_domain,
+                "input_dim": self.input_dim,
+            }
         )
         return config
 
-- 
2.43.0


From e7b32b61366d785c0226b9809fcae7cf761773c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 57/57] fix: LoRA weights kept when splitting the activation of
 a layer

---
 src/decomon/models/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f3cb084..a904e52 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -207,8 +207,15 @@ def split_activation(layer: Layer) -> list[Layer]:
         layer_wo_activation_tmp = layer.__class__.from_config(config)  # create a temporary layer w/o activation
         layer_wo_activation_tmp(layer.input)  # build it
         weights_names = [w.name for w in layer_wo_activation_tmp.weights]
+        lora_enabled = getattr(layer, "lora_enabled", False)
+        if lora_enabled:
+            # LoRA weights may be unknown to the config: store them before build (ie before the lock)
+            layer_wo_activation.lora_kernel_a = layer.lora_kernel_a
+            layer_wo_activation.lora_kernel_b = layer.lora_kernel_b
         # share weights (and build the new layer)
         share_weights_and_build(original_layer=layer, new_layer=layer_wo_activation, weight_names=weights_names)
+        if lora_enabled:
+            layer_wo_activation.lora_enabled = True
 
         # activation layer
         if isinstance(activation, dict):
-- 
2.43.0

