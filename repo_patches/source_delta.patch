From 832532dcac8cfedeeaa6ee1f065d7b142566465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 01/98] fix: check split products along the feature axis, not
 the channel axis

ElementwiseProduct/OuterProduct passed (features, channels) to
Split.get_out_shapes, which divides the second entry, so valid splits of
modules whose channel count is not a multiple of num_splits were rejected.
---
 spflow/modules/products/elementwise_product.py | 7 ++-----
 spflow/modules/products/outer_product.py       | 8 ++------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index ee2d008..c11845a 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -102,11 +102,8 @@ class ElementwiseProduct(BaseProduct):
                 raise ValueError("num_splits must be the same for all inputs")
             out_f = self.inputs[0].out_shape.features
             out_c = self.inputs[0].out_shape.channels
-            if out_f == 1:
-                out_f_computed = 1
-            else:
-                out_f_computed = int(out_f // self.num_splits)
-            shapes = inputs[0].get_out_shapes((out_f_computed, out_c))
+            # Splitting happens along the feature axis (second entry); channels stay intact.
+            shapes = inputs[0].get_out_shapes((out_c, out_f))
         else:
             shapes = [(inp.out_shape.features, inp.out_shape.channels) for inp in inputs]
 
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 9544c37..47df87d 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -96,12 +96,7 @@ class OuterProduct(BaseProduct):
         Raises:
             ValueError: If input shapes are not broadcastable.
         """
-        # Compute out_features locally
         input_features = self.inputs[0].out_shape.features
-        if self.input_is_split:
-            out_features = int(input_features // self.num_splits)
-        else:
-            out_features = input_features
 
         # Compute out_channels as product of input channels
         ocs = 1
@@ -114,7 +109,8 @@ class OuterProduct(BaseProduct):
         if self.input_is_split:
             if self.num_splits != self.inputs[0].num_splits:
                 raise ValueError("num_splits must be the same for all inputs")
-            shapes = self.inputs[0].get_out_shapes((out_features, out_channels))
+            # Splitting happens along the feature axis (second entry); channels stay intact.
+            shapes = self.inputs[0].get_out_shapes((out_channels, input_features))
         else:
             shapes = [(inp.out_shape.features, inp.out_shape.channels) for inp in self.inputs]
 
-- 
2.43.0


From 0dd43b97b5f0c2d35c28f59ec75b9d8e890f1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 02/98] fix: OuterProduct keeps the number of splits of its
 Split input

The num_splits argument (default 2) overwrote the split count of an explicit
Split / split_mode, giving wrong feature and channel counts for 3+ splits.
---
 spflow/modules/products/outer_product.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 47df87d..87bc34c 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -58,7 +58,8 @@ class OuterProduct(BaseProduct):
             if num_splits is None or num_splits <= 1:
                 raise ValueError("num_splits must be at least 2 when input is a single module")
 
-        self.num_splits = num_splits
+        if not self.input_is_split:
+            self.num_splits = num_splits
 
         # Store unraveled channel indices from actual child channel counts.
         if self.input_is_split:
-- 
2.43.0


From 20548948c4523dd390e5c91d1b9236651740d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 03/98] fix: RepetitionMixingLayer validates its weights over
 the repetition axis

sum_dim was still the Sum default (channels) while the constructor validated
explicit weights, so weights normalized over repetitions were rejected.
---
 spflow/modules/sums/repetition_mixing_layer.py | 4 ++--
 spflow/modules/sums/sum.py                     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 2a58ee3..451b02e 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -19,6 +19,8 @@ class RepetitionMixingLayer(Sum):
     Extends Sum with RAT-SPN specific optimizations.
     """
 
+    sum_dim: int = 2  # weights are normalized over repetitions
+
     def __init__(
         self,
         inputs: Module,
@@ -39,8 +41,6 @@ class RepetitionMixingLayer(Sum):
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
 
-        self.sum_dim = 2
-
     @property
     def feature_to_scope(self) -> np.ndarray:
         return self.inputs.feature_to_scope
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index b8934b2..372d644 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -43,6 +43,8 @@ class Sum(Module):
         logits (Parameter): Unnormalized log-weights for gradient optimization.
     """
 
+    sum_dim: int = 1  # weights dimension (input channels) that is normalized
+
     def __init__(
         self,
         inputs: Module | list[Module],
@@ -105,7 +107,6 @@ class Sum(Module):
         else:
             self.inputs = inputs
 
-        self.sum_dim = 1
         self.scope = self.inputs.scope
 
         # ========== 5. SHAPE COMPUTATION (early, so shapes can be reused below) ==========
-- 
2.43.0


From 27fa1d9612fc267da1235b3f37ecd7840bc78cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 04/98] fix: Sum.feature_to_scope has one column per repetition

A sum that broadcasts a single-repetition input over several repetitions
reported the input's single column, so consumers indexing by repetition failed.
---
 spflow/modules/sums/sum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 372d644..e7e07a2 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -185,7 +185,11 @@ class Sum(Module):
 
     @property
     def feature_to_scope(self) -> np.ndarray:
-        return self.inputs.feature_to_scope
+        f2s = self.inputs.feature_to_scope
+        if f2s.shape[1] == 1 and self.out_shape.repetitions > 1:
+            # A single input repetition is shared by all repetitions of the sum.
+            f2s = np.repeat(f2s, self.out_shape.repetitions, axis=1)
+        return f2s
 
     @property
     def log_weights(self) -> Tensor:
-- 
2.43.0


From 16009ccf255ec2268fe3236411d92f8556556d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 05/98] fix: split products report the per-feature scopes of
 the parts they evaluate

---
 spflow/modules/ops/split.py                   | 20 ++++++++++++++++
 spflow/modules/ops/split_by_index.py          |  4 ++++
 spflow/modules/ops/split_consecutive.py       |  5 ++++
 spflow/modules/ops/split_interleaved.py       |  4 ++++
 .../modules/products/elementwise_product.py   | 23 ++++++-------------
 spflow/modules/products/outer_product.py      | 16 +++++--------
 6 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/spflow/modules/ops/split.py b/spflow/modules/ops/split.py
index 63fe222..00e4759 100644
--- a/spflow/modules/ops/split.py
+++ b/spflow/modules/ops/split.py
@@ -207,6 +207,26 @@ class Split(Module, ABC):
             else:
                 return [(event_shape[0], quotient)] * (self.num_splits - 1) + [(event_shape[1], remainder)]
 
+    def scopes_per_split(self) -> list[np.ndarray]:
+        """Per-feature scopes of every part, in the layout the parts are evaluated in.
+
+        Returns:
+            list[np.ndarray]: One array of shape (features of the part, repetitions) per split.
+        """
+        scopes = self.inputs.feature_to_scope
+        return [scopes[group] for group in self.split_features(list(range(len(scopes))))]
+
+    def split_features(self, features: list[int]) -> list[list[int]]:
+        """Distribute feature indices over the parts.
+
+        Args:
+            features: All feature indices of the input.
+
+        Returns:
+            list[list[int]]: The features belonging to each part, in order.
+        """
+        raise NotImplementedError(f"{self.__class__.__name__} does not implement split_features.")
+
     @property
     @abstractmethod
     def feature_to_scope(self) -> np.ndarray:
diff --git a/spflow/modules/ops/split_by_index.py b/spflow/modules/ops/split_by_index.py
index b0cf984..4c34046 100644
--- a/spflow/modules/ops/split_by_index.py
+++ b/spflow/modules/ops/split_by_index.py
@@ -150,6 +150,10 @@ class SplitByIndex(Split):
         out = np.stack(out, axis=2)
         return out
 
+    def split_features(self, features: list[int]) -> list[list[int]]:
+        """The explicitly listed features of each group."""
+        return [[features[i] for i in group] for group in self._indices]
+
     @cached
     def log_likelihood(self, data: Tensor, cache: Cache | None = None) -> list[Tensor]:
         """Compute log likelihoods for each split.
diff --git a/spflow/modules/ops/split_consecutive.py b/spflow/modules/ops/split_consecutive.py
index a80a6fe..1b74efe 100644
--- a/spflow/modules/ops/split_consecutive.py
+++ b/spflow/modules/ops/split_consecutive.py
@@ -62,6 +62,11 @@ class SplitConsecutive(Split):
         out = np.stack(out, axis=2)
         return out
 
+    def split_features(self, features: list[int]) -> list[list[int]]:
+        """Consecutive chunks of equal size."""
+        size = len(features) // self.num_splits
+        return [features[i : i + size] for i in range(0, len(features), size)]
+
     @cached
     def log_likelihood(
         self,
diff --git a/spflow/modules/ops/split_interleaved.py b/spflow/modules/ops/split_interleaved.py
index f9bdd97..9d3ee16 100644
--- a/spflow/modules/ops/split_interleaved.py
+++ b/spflow/modules/ops/split_interleaved.py
@@ -75,6 +75,10 @@ class SplitInterleaved(Split):
         out = np.stack(out, axis=2)
         return out
 
+    def split_features(self, features: list[int]) -> list[list[int]]:
+        """Every num_splits-th feature."""
+        return [features[i :: self.num_splits] for i in range(self.num_splits)]
+
     @cached
     def log_likelihood(self, data: Tensor, cache: Cache | None = None) -> list[Tensor]:
         """Compute log likelihoods for each split.
diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index c11845a..12e0bd2 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -138,25 +138,16 @@ class ElementwiseProduct(BaseProduct):
 
     @property
     def feature_to_scope(self) -> np.ndarray:
+        if self.input_is_split:
+            scope_lists = self.inputs[0].scopes_per_split()
+        else:
+            scope_lists = [module.feature_to_scope for module in self.inputs]
+
         out = []
         for r in range(self.out_shape.repetitions):
-            if self.input_is_split:
-                scope_lists_r = self.inputs[0].feature_to_scope[
-                    ..., r
-                ]  # Shape: (num_features_per_split, num_splits)
-                scope_lists_r = [scope_lists_r[:, i] for i in range(self.num_splits)]
-            else:
-                scope_lists_r = [
-                    module.feature_to_scope[..., r] for module in self.inputs
-                ]  # Shape: (num_features_per_split, num_splits)
-
-            feature_to_scope_r = []
             # Group elements by index
-            grouped_scopes_r = list(zip(*scope_lists_r))
-            for scopes_r in grouped_scopes_r:
-                feature_to_scope_r.append(Scope.join_all(scopes_r))
-
-            out.append(np.array(feature_to_scope_r))
+            grouped_scopes_r = zip(*[scopes[:, r] for scopes in scope_lists])
+            out.append(np.array([Scope.join_all(scopes_r) for scopes_r in grouped_scopes_r]))
 
         return np.stack(out, axis=1)
 
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 87bc34c..f334994 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -145,17 +145,13 @@ class OuterProduct(BaseProduct):
     def feature_to_scope(self) -> list[Scope]:
         out = []
         for r in range(self.out_shape.repetitions):
-            if isinstance(self.inputs, Split):
-                scope_lists_r = self.inputs.feature_to_scope[
-                    ..., r
-                ]  # Shape: (num_features_per_split, num_splits)
-                scope_lists_r = [scope_lists_r[:, i] for i in range(self.num_splits)]
+            if self.input_is_split:
+                # Parts of one split are aligned feature by feature.
+                split = self.inputs if isinstance(self.inputs, Split) else self.inputs[0]
+                outer_product_r = list(zip(*[scopes[:, r] for scopes in split.scopes_per_split()]))
             else:
-                scope_lists_r = [
-                    module.feature_to_scope[..., r] for module in self.inputs
-                ]  # Shape: (num_features_per_split, num_splits)
-
-            outer_product_r = list(product(*scope_lists_r))
+                scope_lists_r = [module.feature_to_scope[..., r] for module in self.inputs]
+                outer_product_r = list(product(*scope_lists_r))
 
             feature_to_scope_r = []
             for scopes_r in outer_product_r:
-- 
2.43.0


From ef79e276f9dbc1791acaa0e65a82da5563bd750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 06/98] fix: interval likelihood of positive-support leaves
 with missing or out-of-support bounds

---
 spflow/modules/leaves/leaf.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 185229b..7392d2a 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -528,10 +528,19 @@ class LeafModule(Module, ABC):
             high_expanded,
         )
 
+        support = getattr(dist, "support", torch.distributions.constraints.real)
+
+        def bounded_cdf(bound: Tensor) -> Tensor:
+            # Bounds outside the support (e.g. missing ones) lie entirely below or above it.
+            inside = torch.isfinite(bound) & support.check(bound)
+            anchor = torch.full_like(bound, self._supported_value)
+            outside = (bound > anchor).to(bound.dtype)
+            return torch.where(inside, dist.cdf(torch.where(inside, bound, anchor)), outside)
+
         # Compute CDF values
         try:
-            cdf_high = dist.cdf(high_for_cdf)
-            cdf_low = dist.cdf(low_for_cdf)
+            cdf_high = bounded_cdf(high_for_cdf)
+            cdf_low = bounded_cdf(low_for_cdf)
         except NotImplementedError:
             raise NotImplementedError(
                 f"{self.__class__.__name__} does not support interval inference. "
-- 
2.43.0


From aa8a0fb98f476f4301631f111caf4f044bf0cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 07/98] fix: reject infinite interval bounds that lie on the
 wrong side

---
 spflow/meta/data/interval_evidence.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spflow/meta/data/interval_evidence.py b/spflow/meta/data/interval_evidence.py
index a4c7637..23d3077 100644
--- a/spflow/meta/data/interval_evidence.py
+++ b/spflow/meta/data/interval_evidence.py
@@ -42,9 +42,8 @@ class IntervalEvidence:
         if self.low.dim() != 2:
             raise ValueError(f"Tensors must be 2-dimensional (batch, features), got {self.low.dim()}D")
 
-        # Check low <= high for finite entries
-        finite_mask = torch.isfinite(self.low) & torch.isfinite(self.high)
-        if (self.low[finite_mask] > self.high[finite_mask]).any():
+        # Check low <= high (comparisons with NaN bounds are False)
+        if (self.low > self.high).any():
             raise ValueError("Invalid interval: low > high for some entries")
 
     @property
-- 
2.43.0


From 9cb0c59edcbdb02fda8a578fca018521cb4f046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 08/98] fix: factorize layers keep impossible inputs apart from
 the other groups

---
 spflow/modules/rat/factorize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index 652d802..1d34e0f 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -162,8 +162,11 @@ class Factorize(BaseProduct):
             cache=cache,
         )  # lls[0] shape: [batch_size, num_features, num_channel, num_repetitions]
 
-        output = torch.einsum("bicr, ior->bocr", lls[0], self.indices)
-        return output
+        # Contract impossible inputs (-inf) separately: 0 * -inf would poison unrelated outputs.
+        impossible = torch.isneginf(lls[0])
+        output = torch.einsum("bicr, ior->bocr", lls[0].masked_fill(impossible, 0.0), self.indices)
+        n_impossible = torch.einsum("bicr, ior->bocr", impossible.to(self.indices.dtype), self.indices)
+        return output.masked_fill(n_impossible > 0, float("-inf"))
 
     def _sample(
         self,
-- 
2.43.0


From 2cdd1640ddd034838f782dee19dab992578bc2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 09/98] fix: einsum layers evaluate impossible inputs to zero
 instead of NaN

---
 spflow/modules/einsum/einsum_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index f348048..db435e7 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -370,9 +370,11 @@ class EinsumLayer(Module):
         above, and the removed maxima are added back after ``log``.
         """
         left_max = left_ll.amax(dim=2, keepdim=True)
+        left_max = left_max.masked_fill(torch.isneginf(left_max), 0.0)  # all channels impossible
         left_prob = torch.exp(left_ll - left_max)
 
         right_max = right_ll.amax(dim=2, keepdim=True)
+        right_max = right_max.masked_fill(torch.isneginf(right_max), 0.0)
         right_prob = torch.exp(right_ll - right_max)
 
         weights = self._normalized_weights()
-- 
2.43.0


From a66fc4c959cc019507465ff82384e8193a538dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 10/98] fix: sums and channel concatenations require equal
 scopes per feature

---
 spflow/modules/ops/cat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/modules/ops/cat.py b/spflow/modules/ops/cat.py
index 787a9a1..cd93104 100644
--- a/spflow/modules/ops/cat.py
+++ b/spflow/modules/ops/cat.py
@@ -50,6 +50,9 @@ class Cat(Module):
                 raise ValueError("All inputs must have the same number of features.")
             if not Scope.all_equal([module.scope for module in self.inputs]):
                 raise ValueError("All inputs must have the same scope.")
+            scopes = self.inputs[0].feature_to_scope
+            if not all([np.array_equal(module.feature_to_scope, scopes) for module in self.inputs]):
+                raise ValueError("All inputs must have the same scope per feature.")
 
             # Scope is the same as all inputs
             self._scope = self.inputs[0].scope
-- 
2.43.0


From f169177c71c1ebf7a191f307d244cd7bc90dfddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 11/98] fix: products combine splits only when every part has
 the same features

---
 spflow/modules/einsum/einsum_layer.py          |  2 ++
 spflow/modules/einsum/linsum_layer.py          |  2 ++
 spflow/modules/ops/split.py                    | 18 +++++++++++++++++-
 spflow/modules/ops/split_by_index.py           |  7 +++++++
 spflow/modules/products/elementwise_product.py |  2 ++
 spflow/modules/products/outer_product.py       |  1 +
 6 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index db435e7..fba7201 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -291,6 +291,8 @@ class EinsumLayer(Module):
         else:
             # SplitConsecutive returns list of [left, right]
             lls = self.inputs.log_likelihood(data, cache=cache)
+            if len(lls) != 2 or lls[0].shape[1] != lls[1].shape[1]:
+                raise ShapeError("The input must be split into two parts with equally many features.")
             left_ll = lls[0]
             right_ll = lls[1]
         return left_ll, right_ll
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 01b925a..7fb4fdd 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -247,6 +247,8 @@ class LinsumLayer(Module):
         else:
             # SplitConsecutive returns list of [left, right]
             lls = self.inputs.log_likelihood(data, cache=cache)
+            if len(lls) != 2 or lls[0].shape[1] != lls[1].shape[1]:
+                raise ShapeError("The input must be split into two parts with equally many features.")
             left_ll = lls[0]
             right_ll = lls[1]
         return left_ll, right_ll
diff --git a/spflow/modules/ops/split.py b/spflow/modules/ops/split.py
index 00e4759..2dd1e38 100644
--- a/spflow/modules/ops/split.py
+++ b/spflow/modules/ops/split.py
@@ -13,7 +13,7 @@ from typing import Any, Dict, Optional
 
 from torch import Tensor, nn
 
-from spflow.exceptions import InvalidParameterError
+from spflow.exceptions import InvalidParameterError, ShapeError
 from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
@@ -216,6 +216,22 @@ class Split(Module, ABC):
         scopes = self.inputs.feature_to_scope
         return [scopes[group] for group in self.split_features(list(range(len(scopes))))]
 
+    def check_equal_parts(self, num_parts: int) -> None:
+        """Require that the split yields ``num_parts`` parts with the same number of features.
+
+        Args:
+            num_parts: Number of parts the consumer combines.
+
+        Raises:
+            ShapeError: If the parts cannot be combined feature by feature.
+        """
+        num_features = self.inputs.out_shape.features
+        if self.num_splits != num_parts or num_features % num_parts != 0:
+            raise ShapeError(
+                f"Splitting {num_features} features into {self.num_splits} parts "
+                f"does not yield {num_parts} equally sized parts."
+            )
+
     def split_features(self, features: list[int]) -> list[list[int]]:
         """Distribute feature indices over the parts.
 
diff --git a/spflow/modules/ops/split_by_index.py b/spflow/modules/ops/split_by_index.py
index 4c34046..74e909c 100644
--- a/spflow/modules/ops/split_by_index.py
+++ b/spflow/modules/ops/split_by_index.py
@@ -12,6 +12,7 @@ import numpy as np
 import torch
 from torch import Tensor
 
+from spflow.exceptions import ShapeError
 from spflow.modules.module import Module
 from spflow.modules.ops.split import Split
 from spflow.utils.cache import Cache, cached
@@ -98,6 +99,12 @@ class SplitByIndex(Split):
             missing = set(range(num_features)) - set(all_indices)
             raise ValueError(f"Indices do not cover all features. Missing: {missing}")
 
+    def check_equal_parts(self, num_parts: int) -> None:
+        super().check_equal_parts(num_parts)
+        sizes = [len(idx_group) for idx_group in self._indices]
+        if len(set(sizes)) != 1:
+            raise ShapeError(f"Index groups must have the same size to be combined, got sizes {sizes}.")
+
     def _compute_inverse_order(self, num_features: int) -> Tensor:
         """Compute inverse mapping from split outputs back to original order.
 
diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index 12e0bd2..6078978 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -102,6 +102,8 @@ class ElementwiseProduct(BaseProduct):
                 raise ValueError("num_splits must be the same for all inputs")
             out_f = self.inputs[0].out_shape.features
             out_c = self.inputs[0].out_shape.channels
+            if out_f > 1:
+                inputs[0].check_equal_parts(self.num_splits)
             # Splitting happens along the feature axis (second entry); channels stay intact.
             shapes = inputs[0].get_out_shapes((out_c, out_f))
         else:
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index f334994..b7b6989 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -110,6 +110,7 @@ class OuterProduct(BaseProduct):
         if self.input_is_split:
             if self.num_splits != self.inputs[0].num_splits:
                 raise ValueError("num_splits must be the same for all inputs")
+            self.inputs[0].check_equal_parts(self.num_splits)
             # Splitting happens along the feature axis (second entry); channels stay intact.
             shapes = self.inputs[0].get_out_shapes((out_channels, input_features))
         else:
-- 
2.43.0


From 0ce3634777ab59876b0d52c13266f109fe1b734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 12/98] fix: sums and repetition mixing reject inputs whose
 repetitions their weights do not cover

---
 spflow/modules/sums/repetition_mixing_layer.py | 5 +++++
 spflow/modules/sums/sum.py                     | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 451b02e..7e4d727 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -186,6 +186,11 @@ class RepetitionMixingLayer(Sum):
             cache=cache,
         )
 
+        if ll.shape[-1] != self.log_weights.shape[-1]:
+            raise ShapeError(
+                f"Cannot mix {ll.shape[-1]} repetitions with weights for {self.log_weights.shape[-1]} repetitions."
+            )
+
         log_weights = rearrange(self.log_weights, "f co r -> 1 f co r")
 
         # Weighted log-likelihoods
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index e7e07a2..514d9d9 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -272,6 +272,12 @@ class Sum(Module):
             cache=cache,
         )
 
+        if ll.shape[-1] not in (1, self.out_shape.repetitions):
+            raise ShapeError(
+                f"'Sum' with {self.out_shape.repetitions} repetitions cannot mix an input with "
+                f"{ll.shape[-1]} repetitions."
+            )
+
         ll = rearrange(ll, "b f ci r -> b f ci 1 r")
 
         log_weights = rearrange(self.log_weights, "f ci co r -> 1 f ci co r")
-- 
2.43.0


From 819cdb7dacf158d15fb23a916a5d31de8de29492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 13/98] fix: factorize, element-wise sum and repetition mixing
 reject inputs they cannot combine

---
 spflow/modules/rat/factorize.py                | 7 ++++++-
 spflow/modules/sums/elementwise_sum.py         | 6 ++++++
 spflow/modules/sums/repetition_mixing_layer.py | 6 +++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index 1d34e0f..af535fe 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -13,7 +13,7 @@ import torch
 from einops import rearrange
 from torch import Tensor
 
-from spflow.exceptions import StructureError
+from spflow.exceptions import ShapeError, StructureError
 from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
@@ -70,6 +70,11 @@ class Factorize(BaseProduct):
 
         # Shape computation
         self.in_shape = self.inputs[0].out_shape
+        if self.in_shape.repetitions not in (1, num_repetitions):
+            raise ShapeError(
+                f"Cannot factorize an input with {self.in_shape.repetitions} repetitions "
+                f"into {num_repetitions} repetitions."
+            )
         self.out_shape = ModuleShape(2**self.depth, self.inputs[0].out_shape.channels, num_repetitions)
 
     @property
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 6b587dd..af1ec81 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -493,6 +493,12 @@ class ElementwiseSum(Module):
         # Stack input log-likelihoods
         stacked_lls = torch.stack(lls, dim=self.sum_dim)
 
+        if stacked_lls.shape[-1] not in (1, self.out_shape.repetitions):
+            raise ShapeError(
+                f"'ElementwiseSum' with {self.out_shape.repetitions} repetitions cannot mix inputs with "
+                f"{stacked_lls.shape[-1]} repetitions."
+            )
+
         ll = rearrange(stacked_lls, "b f ci i r -> b f ci 1 i r")
 
         log_weights = rearrange(self.log_weights, "f ci co i r -> 1 f ci co i r")
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 7e4d727..d77ec93 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -5,7 +5,7 @@ import torch
 from einops import rearrange, repeat
 from torch import Tensor
 
-from spflow.exceptions import InvalidParameterCombinationError, MissingCacheError, ShapeError
+from spflow.exceptions import InvalidParameterCombinationError, MissingCacheError, ScopeError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
@@ -41,6 +41,10 @@ class RepetitionMixingLayer(Sum):
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
 
+        scopes = self.inputs.feature_to_scope
+        if not all(np.array_equal(scopes[:, r], scopes[:, 0]) for r in range(scopes.shape[1])):
+            raise ScopeError("Features must have the same scope in all repetitions to be mixed.")
+
     @property
     def feature_to_scope(self) -> np.ndarray:
         return self.inputs.feature_to_scope
-- 
2.43.0


From 207266196aa0e7f46d5269c32eb005fd053a0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 14/98] fix: Factorize.feature_to_scope supports a shared input
 repetition

---
 spflow/modules/rat/factorize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index af535fe..a6b59b4 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -80,6 +80,8 @@ class Factorize(BaseProduct):
     @property
     def feature_to_scope(self) -> np.ndarray:
         f2s_inputs = self.inputs[0].feature_to_scope
+        # A single input repetition is shared by all repetitions of the factorization.
+        f2s_inputs = np.broadcast_to(f2s_inputs, (f2s_inputs.shape[0], self.out_shape.repetitions))
 
         # We need to map the input features to output features based on the factorization given in self.indices
         # self.indices shape: [num_features_in, num_features_out, num_repetitions]
-- 
2.43.0


From a2cb13bb46f996cbb20c3891fcd6ab207cfeb645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 15/98] fix: uniform leaves give zero density outside their
 interval when support_outside is set

---
 spflow/modules/leaves/uniform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/uniform.py b/spflow/modules/leaves/uniform.py
index e4b212a..32c2297 100644
--- a/spflow/modules/leaves/uniform.py
+++ b/spflow/modules/leaves/uniform.py
@@ -78,7 +78,7 @@ class Uniform(LeafModule):
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Uniform]:
-        return torch.distributions.Uniform
+        return _UniformOnReals if bool(self._support_outside) else torch.distributions.Uniform
 
     @property
     def _torch_distribution_class_with_differentiable_sampling(
@@ -174,6 +174,12 @@ class Uniform(LeafModule):
         del data, bias_correction, cache
 
 
+class _UniformOnReals(torch.distributions.Uniform):
+    """Uniform distribution that gives values outside of its interval zero density."""
+
+    support = torch.distributions.constraints.real
+
+
 class _Uniform(torch.distributions.Uniform):
     def mode(self):
         # We deviate from torch here, since torch returns NaN
-- 
2.43.0


From b469fa12704a60b2b1814fef22de5761dc3340de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 16/98] fix: ElementwiseSum.marginalize keeps the weights of
 the remaining features

---
 spflow/modules/sums/elementwise_sum.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index af1ec81..35289c6 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -269,9 +269,15 @@ class ElementwiseSum(Module):
 
             # if marginalized input is not None
             if marg_input:
-                indices = [self.scope.query.index(el) for el in list(mutual_rvs)]
-                mask = torch.ones(len(module_scope.query), device=module_weights.device, dtype=torch.bool)
-                mask[indices] = False
+                # keep the weights of every feature that still has variables in its scope
+                mask = torch.tensor(
+                    [
+                        not all(set(scope.query) <= mutual_rvs for scope in scopes)
+                        for scopes in self.feature_to_scope
+                    ],
+                    device=module_weights.device,
+                    dtype=torch.bool,
+                )
                 module_weights = module_weights[mask]
 
         else:
-- 
2.43.0


From e1e752c5a077ed1962e5e1b6a1bb0796901836f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 17/98] fix: RepetitionMixingLayer.marginalize handles its
 three-dimensional weights

---
 .../modules/sums/repetition_mixing_layer.py   | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index d77ec93..096edcc 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -169,6 +169,34 @@ class RepetitionMixingLayer(Sum):
 
         return data
 
+    def marginalize(
+        self,
+        marg_rvs: list[int],
+        prune: bool = True,
+        cache: Cache | None = None,
+    ) -> RepetitionMixingLayer | None:
+        """Marginalize out specified random variables.
+
+        Args:
+            marg_rvs: Random variables to marginalize.
+            prune: Whether to prune the module.
+            cache: Cache for memoization.
+
+        Returns:
+            Marginalized module or None if fully marginalized.
+        """
+        mutual_rvs = set(self.scope.query).intersection(set(marg_rvs))
+        if len(mutual_rvs) == len(self.scope.query):
+            return None
+        if not mutual_rvs:
+            return RepetitionMixingLayer(inputs=self.inputs, weights=self.weights)
+
+        marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
+        if marg_input is None:
+            return None
+        mask = [not set(scope.query) <= mutual_rvs for scope in self.inputs.feature_to_scope[:, 0]]
+        return RepetitionMixingLayer(inputs=marg_input, weights=self.weights[mask])
+
     @cached
     def log_likelihood(
         self,
-- 
2.43.0


From 1898641c549fb52e416a64fc9785f4e666521f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 18/98] fix: Factorize.marginalize keeps the drawn
 factorization

---
 spflow/modules/rat/factorize.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index a6b59b4..f3c9049 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -41,6 +41,7 @@ class Factorize(BaseProduct):
         inputs: list[Module] | Module,
         depth: int,
         num_repetitions: int,
+        indices: Tensor | None = None,
     ) -> None:
         """Initialize factorize module.
 
@@ -48,6 +49,8 @@ class Factorize(BaseProduct):
             inputs: Leaf modules or single module to factorize.
             depth: Depth parameter (output features = 2^depth).
             num_repetitions: Number of parallel randomizations.
+            indices: Optional fixed factorization of shape (input features, output features, repetitions)
+                to use instead of drawing a new one.
         """
         if isinstance(inputs, list):
             if len(inputs) > 1:
@@ -57,9 +60,10 @@ class Factorize(BaseProduct):
         super().__init__(inputs=inputs)
 
         self.depth = depth
-        indices = self._factorize(
-            depth, num_repetitions
-        )  # shape: [num_features_in, num_features_out, num_repetitions]
+        if indices is None:
+            indices = self._factorize(
+                depth, num_repetitions
+            )  # shape: [num_features_in, num_features_out, num_repetitions]
         self.register_buffer("indices", indices.to(torch.get_default_dtype()))
         # Sampling can optionally use a dedicated mapping (defaults to forward mapping).
         self.register_buffer("sampling_indices", self.indices.clone())
@@ -75,7 +79,7 @@ class Factorize(BaseProduct):
                 f"Cannot factorize an input with {self.in_shape.repetitions} repetitions "
                 f"into {num_repetitions} repetitions."
             )
-        self.out_shape = ModuleShape(2**self.depth, self.inputs[0].out_shape.channels, num_repetitions)
+        self.out_shape = ModuleShape(self.indices.shape[1], self.inputs[0].out_shape.channels, num_repetitions)
 
     @property
     def feature_to_scope(self) -> np.ndarray:
@@ -94,7 +98,7 @@ class Factorize(BaseProduct):
             for o in range(self.out_shape.features):
                 mask = indices[:, o, r] > 0
                 scopes = f2s_inputs[mask, r]
-                out[o, r] = Scope.join_all(scopes)
+                out[o, r] = Scope.join_all(scopes) if len(scopes) > 0 else Scope([])
 
         return out
 
@@ -310,10 +314,23 @@ class Factorize(BaseProduct):
         if marg_child is None:
             return None
 
-        # Prune: if child has only one feature, factorization is redundant - return child directly
-        elif prune and marg_child.out_shape.features == 1:
+        # Keep the drawn factorization: drop the input features that are gone and the groups left empty
+        gone = set(marg_rvs)
+        keep_in = [any(set(s.query) - gone for s in row) for row in self.inputs[0].feature_to_scope]
+        indices = self.indices[torch.tensor(keep_in, device=self.indices.device)]
+        indices = indices[:, (indices > 0).any(dim=2).any(dim=0)]
+
+        # Prune: if child and factorization have only one feature, it is redundant - return child directly
+        if (
+            prune
+            and marg_child.out_shape.features == indices.shape[1] == 1
+            and marg_child.out_shape.repetitions == self.out_shape.repetitions
+        ):
             return marg_child
         else:
             return Factorize(
-                inputs=[marg_child], depth=self.depth, num_repetitions=self.out_shape.repetitions
+                inputs=[marg_child],
+                depth=self.depth,
+                num_repetitions=self.out_shape.repetitions,
+                indices=indices,
             )
-- 
2.43.0


From c42a02fb69200211a088ce90e13be4b7a8f5991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 19/98] fix: Sum.marginalize handles inputs whose single
 repetition is shared

---
 spflow/modules/sums/sum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 514d9d9..d0be371 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -481,8 +481,10 @@ class Sum(Module):
             if marg_input:
                 # Apply mask to weights per-repetition
                 masked_weights_list = []
+                feature_to_scope = self.inputs.feature_to_scope
                 for r in range(self.out_shape.repetitions):
-                    feature_to_scope_r = self.inputs.feature_to_scope[:, r].copy()
+                    # A single input repetition is shared by all repetitions of the sum
+                    feature_to_scope_r = feature_to_scope[:, min(r, feature_to_scope.shape[1] - 1)].copy()
                     # remove mutual_rvs from feature_to_scope list
                     for rv in mutual_rvs:
                         for idx, scope in enumerate(feature_to_scope_r):
-- 
2.43.0


From 34751e39971fae48b02d2454fa3ac5ae8c1deb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 20/98] fix: einsum and linsum layers route sampling masks
 through their split

---
 spflow/modules/einsum/einsum_layer.py | 2 +-
 spflow/modules/einsum/linsum_layer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index fba7201..28db7f9 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -570,7 +570,7 @@ class EinsumLayer(Module):
         else:
             # Single input with Split module - use generic merge_split_indices
             full_indices = self.inputs.merge_split_tensors(left_indices, right_indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 7fb4fdd..c594c6a 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -436,7 +436,7 @@ class LinsumLayer(Module):
             # Single input with Split module - use generic merge_split_indices
             # For LinsumLayer, both left and right use the same indices (linear combination)
             full_indices = self.inputs.merge_split_tensors(indices, indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
-- 
2.43.0


From 4ab997ae7505e07d56193a2f29304666f3b10976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 21/98] fix: element-wise and outer products sample through
 by-index splits

---
 spflow/modules/products/elementwise_product.py | 7 +++++++
 spflow/modules/products/outer_product.py       | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index 6078978..557c34f 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -10,6 +10,7 @@ from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
+from spflow.modules.ops.split_by_index import SplitByIndex
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.modules.ops.split_interleaved import SplitInterleaved
 from spflow.modules.products.base_product import BaseProduct
@@ -171,6 +172,8 @@ class ElementwiseProduct(BaseProduct):
                 elif isinstance(self.inputs[0], SplitInterleaved):
                     expanded_ids = repeat(output_ids, "b f c -> b f i c", i=num_splits)
                     return rearrange(expanded_ids, "b f i c -> b (f i) 1 c")
+                elif isinstance(self.inputs[0], SplitByIndex):
+                    return self.inputs[0].merge_split_tensors(*[output_ids] * num_splits).unsqueeze(2)
                 else:
                     raise NotImplementedError("Other Split types are not implemented yet.")
             if isinstance(self.inputs[0], SplitConsecutive):
@@ -179,6 +182,8 @@ class ElementwiseProduct(BaseProduct):
             elif isinstance(self.inputs[0], SplitInterleaved):
                 expanded_ids = repeat(output_ids, "b f -> b f i", i=num_splits)
                 return rearrange(expanded_ids, "b f i -> b (f i) 1")
+            elif isinstance(self.inputs[0], SplitByIndex):
+                return self.inputs[0].merge_split_tensors(*[output_ids] * num_splits).unsqueeze(2)
             else:
                 raise NotImplementedError("Other Split types are not implemented yet.")
 
@@ -219,6 +224,8 @@ class ElementwiseProduct(BaseProduct):
             elif isinstance(self.inputs[0], SplitInterleaved):
                 expanded_mask = repeat(mask, "b f -> b f i", i=num_splits)
                 return rearrange(expanded_mask, "b f i -> b (f i) 1")
+            elif isinstance(self.inputs[0], SplitByIndex):
+                return self.inputs[0].merge_split_tensors(*[mask] * num_splits).unsqueeze(2)
             else:
                 raise NotImplementedError("Other Split types are not implemented yet.")
         else:
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index b7b6989..4cb04d2 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -13,6 +13,7 @@ from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
+from spflow.modules.ops.split_by_index import SplitByIndex
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.modules.ops.split_interleaved import SplitInterleaved
 from spflow.modules.products.base_product import BaseProduct
@@ -179,6 +180,8 @@ class OuterProduct(BaseProduct):
                     return rearrange(mapped_ids, "b f i -> b (i f) 1")
                 elif isinstance(self.inputs[0], SplitInterleaved):
                     return rearrange(mapped_ids, "b f i -> b (f i) 1")
+                elif isinstance(self.inputs[0], SplitByIndex):
+                    return self.inputs[0].merge_split_tensors(*mapped_ids.unbind(dim=2)).unsqueeze(2)
                 else:
                     raise NotImplementedError("Other Split types are not implemented yet.")
             return self.unraveled_channel_indices[output_ids]
@@ -199,6 +202,8 @@ class OuterProduct(BaseProduct):
                 return rearrange(mapped, "b f i c -> b (i f) 1 c")
             elif isinstance(self.inputs[0], SplitInterleaved):
                 return rearrange(mapped, "b f i c -> b (f i) 1 c")
+            elif isinstance(self.inputs[0], SplitByIndex):
+                return self.inputs[0].merge_split_tensors(*mapped.unbind(dim=2)).unsqueeze(2)
             else:
                 raise NotImplementedError("Other Split types are not implemented yet.")
         return mapped
@@ -223,6 +228,8 @@ class OuterProduct(BaseProduct):
             elif isinstance(self.inputs[0], SplitInterleaved):
                 expanded_mask = repeat(mask, "b f -> b f i", i=num_inputs)
                 return rearrange(expanded_mask, "b f i -> b (f i) 1")
+            elif isinstance(self.inputs[0], SplitByIndex):
+                return self.inputs[0].merge_split_tensors(*[mask] * num_inputs).unsqueeze(2)
             else:
                 raise NotImplementedError("Other Split types are not implemented yet.")
         else:
-- 
2.43.0


From 077f61f6107f415ea9496533e98ec1af2993986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 22/98] fix: RepetitionMixingLayer samples the repetition of
 the requested channel

---
 spflow/modules/sums/repetition_mixing_layer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 096edcc..e4794ab 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,7 +9,12 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
-from spflow.utils.sampling_context import SamplingContext, sample_from_logits
+from spflow.utils.sampling_context import (
+    SamplingContext,
+    index_tensor,
+    repeat_channel_index,
+    sample_from_logits,
+)
 
 
 class RepetitionMixingLayer(Sum):
@@ -140,7 +145,14 @@ class RepetitionMixingLayer(Sum):
             log_posterior = log_posterior.log_softmax(dim=3)
             logits = log_posterior
 
-        rep_logits = logits.sum(-2)
+        # Only the mixture over repetitions of the requested channel matters
+        num_repetitions = int(logits.shape[3])
+        rep_logits = index_tensor(
+            logits,
+            index=repeat_channel_index(sampling_ctx.channel_index, "b f co -> b f co r", r=num_repetitions),
+            dim=2,
+            is_differentiable=sampling_ctx.is_differentiable,
+        )
         rep_samples = sample_from_logits(
             logits=rep_logits,
             dim=-1,
-- 
2.43.0


From 86dd7b77db2d474788d89709639d13c8147a4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 23/98] fix: padded ProdConv routes sampling to the real grid
 positions

---
 spflow/modules/conv/prod_conv.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 6c4e282..6ca5198 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -289,8 +289,16 @@ class ProdConv(Module):
                         f"Got upsampled width {upsampled_features}, expected padded width "
                         f"{expected_padded_features}, input width {in_features}."
                     )
-                channel_idx = sampling_ctx.channel_index[:, :in_features].contiguous()
-                mask = sampling_ctx.mask[:, :in_features].contiguous()
+                # Cut the real positions out of the padded grid
+                padded = torch.arange(expected_padded_features, device=data.device).reshape(
+                    self._input_h + 2 * self.padding_h, self._input_w + 2 * self.padding_w
+                )
+                positions = padded[
+                    self.padding_h : self.padding_h + self._input_h,
+                    self.padding_w : self.padding_w + self._input_w,
+                ].flatten()
+                channel_idx = sampling_ctx.channel_index[:, positions]
+                mask = sampling_ctx.mask[:, positions]
                 sampling_ctx.update(
                     channel_index=channel_idx,
                     mask=mask,
-- 
2.43.0


From 6f1cb84d4523cc1948e85f84f14f978c197157c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 24/98] fix: SumConv samples on grids smaller than its kernel

---
 spflow/modules/conv/sum_conv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 46018a7..5d9abbd 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -282,7 +282,9 @@ class SumConv(Module):
                 f"which is not a perfect square."
             )
 
-        if H % K != 0 or W % K != 0:
+        # Grids smaller than the kernel use its first position only (see log_likelihood)
+        small = H < K or W < K
+        if not small and (H % K != 0 or W % K != 0):
             raise ValueError(f"Spatial dims ({H}, {W}) must be divisible by kernel_size {K}")
 
         sampling_ctx.validate_sampling_context(
@@ -342,8 +344,8 @@ class SumConv(Module):
         # Position within kernel: pixel (i, j) has kernel pos (i % K, j % K)
         row_pos = repeat(torch.arange(H, device=data.device), "h -> b h w", b=batch_size, w=W)
         col_pos = repeat(torch.arange(W, device=data.device), "w -> b h w", b=batch_size, h=H)
-        k_row = row_pos % K  # (batch, H, W)
-        k_col = col_pos % K  # (batch, H, W)
+        k_row = row_pos % (1 if small else K)  # (batch, H, W)
+        k_col = col_pos % (1 if small else K)  # (batch, H, W)
 
         # logits: (batch, out_c, in_c, k, k)
         # Select logits for each position based on parent channel and kernel position
-- 
2.43.0


From 07715bd99b0c8e9b6c01954bb18576df9211c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 25/98] fix: sampling follows inputs whose single repetition is
 shared by their parent

---
 spflow/modules/einsum/einsum_layer.py   | 7 +++++++
 spflow/modules/einsum/linsum_layer.py   | 7 +++++++
 spflow/modules/ops/cat.py               | 1 +
 spflow/modules/products/base_product.py | 1 +
 spflow/modules/rat/factorize.py         | 1 +
 spflow/modules/sums/elementwise_sum.py  | 3 +++
 spflow/modules/sums/sum.py              | 3 +++
 spflow/utils/sampling_context.py        | 9 +++++++++
 8 files changed, 32 insertions(+)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 28db7f9..4ad9dc2 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -497,6 +497,10 @@ class EinsumLayer(Module):
                     left_ll, right_ll = split_ll
 
         if left_ll is not None and right_ll is not None:
+            left_ll, right_ll = (
+                ll.expand(*ll.shape[:-1], self.out_shape.repetitions) if ll.shape[-1] == 1 else ll
+                for ll in (left_ll, right_ll)
+            )
             # Select repetition
             num_features = int(left_ll.shape[1])
             num_left_channels = int(left_ll.shape[2])
@@ -562,10 +566,12 @@ class EinsumLayer(Module):
         if self._two_inputs:
             # Left child
             left_ctx = sampling_ctx.with_routing(channel_index=left_indices, mask=sampling_ctx.mask)
+            left_ctx.share_single_repetition(self.inputs[0].out_shape.repetitions)
             self.inputs[0]._sample(data=data, cache=cache, sampling_ctx=left_ctx)
 
             # Right child
             right_ctx = sampling_ctx.with_routing(channel_index=right_indices, mask=sampling_ctx.mask)
+            right_ctx.share_single_repetition(self.inputs[1].out_shape.repetitions)
             self.inputs[1]._sample(data=data, cache=cache, sampling_ctx=right_ctx)
         else:
             # Single input with Split module - use generic merge_split_indices
@@ -573,6 +579,7 @@ class EinsumLayer(Module):
             full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
+            child_ctx.share_single_repetition(self.inputs.out_shape.repetitions)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
 
         return data
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index c594c6a..b54f533 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -383,6 +383,10 @@ class LinsumLayer(Module):
                     left_ll, right_ll = split_ll
 
         if left_ll is not None and right_ll is not None:
+            left_ll, right_ll = (
+                ll.expand(*ll.shape[:-1], self.out_shape.repetitions) if ll.shape[-1] == 1 else ll
+                for ll in (left_ll, right_ll)
+            )
             # Select repetition
             num_features = int(left_ll.shape[1])
             num_input_channels = int(left_ll.shape[2])
@@ -427,10 +431,12 @@ class LinsumLayer(Module):
         if self._two_inputs:
             # Left child
             left_ctx = sampling_ctx.with_routing(channel_index=indices, mask=sampling_ctx.mask)
+            left_ctx.share_single_repetition(self.inputs[0].out_shape.repetitions)
             self.inputs[0]._sample(data=data, cache=cache, sampling_ctx=left_ctx)
 
             # Right child
             right_ctx = sampling_ctx.with_routing(channel_index=indices, mask=sampling_ctx.mask)
+            right_ctx.share_single_repetition(self.inputs[1].out_shape.repetitions)
             self.inputs[1]._sample(data=data, cache=cache, sampling_ctx=right_ctx)
         else:
             # Single input with Split module - use generic merge_split_indices
@@ -439,6 +445,7 @@ class LinsumLayer(Module):
             full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
+            child_ctx.share_single_repetition(self.inputs.out_shape.repetitions)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
 
         return data
diff --git a/spflow/modules/ops/cat.py b/spflow/modules/ops/cat.py
index cd93104..39a84ca 100644
--- a/spflow/modules/ops/cat.py
+++ b/spflow/modules/ops/cat.py
@@ -172,6 +172,7 @@ class Cat(Module):
                 channel_index=channel_index_per_module[i],
                 mask=mask_per_module[i],
             )
+            sampling_ctx_copy.share_single_repetition(input_module.out_shape.repetitions)
             input_module._sample(
                 data=data,
                 cache=cache,
diff --git a/spflow/modules/products/base_product.py b/spflow/modules/products/base_product.py
index 57baab7..63f070a 100644
--- a/spflow/modules/products/base_product.py
+++ b/spflow/modules/products/base_product.py
@@ -182,6 +182,7 @@ class BaseProduct(Module, ABC):
                     cid = torch.zeros_like(cid)
 
             child_ctx = sampling_ctx.with_routing(channel_index=cid, mask=child_mask)
+            child_ctx.share_single_repetition(inp.out_shape.repetitions)
             inp._sample(
                 data=data,
                 cache=cache,
diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index f3c9049..e5db445 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -216,6 +216,7 @@ class Factorize(BaseProduct):
             clone_repetition=False,
         )
 
+        child_ctx.share_single_repetition(self.inputs[0].out_shape.repetitions)
         self.inputs[0]._sample(
             data=data,
             cache=cache,
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 35289c6..fd26eb6 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -389,6 +389,8 @@ class ElementwiseSum(Module):
             input_lls = []
             for inp in self.inputs:
                 inp_ll = cache["log_likelihood"][inp]
+                if inp_ll.shape[-1] == 1:
+                    inp_ll = inp_ll.expand(*inp_ll.shape[:-1], self.out_shape.repetitions)
                 if inp.out_shape.channels == 1 and self.in_shape.channels > 1:
                     inp_ll = repeat(inp_ll, "b f 1 r -> b f ci r", ci=self.in_shape.channels)
                 input_lls.append(inp_ll)
@@ -454,6 +456,7 @@ class ElementwiseSum(Module):
             )
 
             # Sample from input module
+            sampling_ctx_cpy.share_single_repetition(inp.out_shape.repetitions)
             inp._sample(
                 data=data,
                 cache=cache,
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index d0be371..e054be0 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -352,6 +352,8 @@ class Sum(Module):
         if "log_likelihood" in cache and cache["log_likelihood"].get(self.inputs) is not None:
             # Get the log likelihoods from the cache
             input_lls = cache["log_likelihood"][self.inputs]
+            if input_lls.shape[-1] == 1:
+                input_lls = input_lls.expand(*input_lls.shape[:-1], self.out_shape.repetitions)
 
             num_features = int(input_lls.shape[1])
             in_channels_total = int(input_lls.shape[2])
@@ -387,6 +389,7 @@ class Sum(Module):
         update_channel_index_strict(sampling_ctx, new_channel_index)
 
         # Sample from input module
+        sampling_ctx.share_single_repetition(self.inputs.out_shape.repetitions)
         self.inputs._sample(
             data=data,
             cache=cache,
diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index af8cc66..b153625 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -427,6 +427,15 @@ class SamplingContext:
             clone_repetition=True,
         )
 
+    def share_single_repetition(self, num_repetitions: int) -> None:
+        """Select the only repetition of an input that all repetitions of its parent share."""
+        if num_repetitions != 1:
+            return
+        if self.is_differentiable:
+            self.repetition_index = torch.ones_like(self.repetition_index[:, :1])
+        else:
+            self.repetition_index = torch.zeros_like(self.repetition_index)
+
     def add_leaf_param_record(self, record: LeafParamRecord) -> None:
         """Append a leaf-parameter record collected during traversal."""
         self._leaf_param_records.append(record)
-- 
2.43.0


From 6fc84a61153b4e61843cd7aa6688fe12e32dcbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 26/98] fix: ElementwiseProduct routes every input's own
 channel when one input has a single channel

---
 spflow/modules/products/elementwise_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index 557c34f..db7d302 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -189,7 +189,7 @@ class ElementwiseProduct(BaseProduct):
 
         num_inputs = len(self.inputs)
         if not output_ids.is_floating_point():
-            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs)
+            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs).clone()
             for i, inp in enumerate(self.inputs):
                 if int(inp.out_shape.channels) == 1:
                     mapped[..., i] = 0
-- 
2.43.0


From 4a88461ba2b566033749a454e96765faddded555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 27/98] fix: ElementwiseSum samples inputs whose single channel
 is broadcast

---
 spflow/modules/sums/elementwise_sum.py | 3 +++
 spflow/utils/sampling_context.py       | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index fd26eb6..c03031b 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -457,6 +457,9 @@ class ElementwiseSum(Module):
 
             # Sample from input module
             sampling_ctx_cpy.share_single_repetition(inp.out_shape.repetitions)
+            if inp.out_shape.channels == 1 and self.in_shape.channels > 1:
+                # A single-channel input is broadcast over all summed channels.
+                sampling_ctx_cpy.share_single_channel()
             inp._sample(
                 data=data,
                 cache=cache,
diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index b153625..9c6f106 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -436,6 +436,13 @@ class SamplingContext:
         else:
             self.repetition_index = torch.zeros_like(self.repetition_index)
 
+    def share_single_channel(self) -> None:
+        """Select the only channel of an input that its parent broadcasts over its channels."""
+        if self.is_differentiable:
+            self.channel_index = torch.ones_like(self.channel_index[..., :1])
+        else:
+            self.channel_index = torch.zeros_like(self.channel_index)
+
     def add_leaf_param_record(self, record: LeafParamRecord) -> None:
         """Append a leaf-parameter record collected during traversal."""
         self._leaf_param_records.append(record)
-- 
2.43.0


From 13ddb183e7ff9a073975f824cafd05c6ef0e8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 28/98] fix: MPE fills missing values of uniform leaves

---
 spflow/modules/leaves/uniform.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/leaves/uniform.py b/spflow/modules/leaves/uniform.py
index 32c2297..98ed4ef 100644
--- a/spflow/modules/leaves/uniform.py
+++ b/spflow/modules/leaves/uniform.py
@@ -78,13 +78,13 @@ class Uniform(LeafModule):
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Uniform]:
-        return _UniformOnReals if bool(self._support_outside) else torch.distributions.Uniform
+        return _UniformOnReals if bool(self._support_outside) else _UniformWithMode
 
     @property
     def _torch_distribution_class_with_differentiable_sampling(
         self,
     ) -> type[torch.distributions.Uniform]:
-        return torch.distributions.Uniform
+        return _UniformWithMode
 
     @property
     def mode(self) -> Tensor:
@@ -174,7 +174,15 @@ class Uniform(LeafModule):
         del data, bias_correction, cache
 
 
-class _UniformOnReals(torch.distributions.Uniform):
+class _UniformWithMode(torch.distributions.Uniform):
+    """Uniform distribution whose mode is its midpoint (torch returns NaN)."""
+
+    @property
+    def mode(self) -> Tensor:
+        return (self.low + self.high) / 2
+
+
+class _UniformOnReals(_UniformWithMode):
     """Uniform distribution that gives values outside of its interval zero density."""
 
     support = torch.distributions.constraints.real
-- 
2.43.0


From c6c5714641bb0fa86d40878d9f7cbcf6c10ba1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 29/98] fix: MPE fills missing values of fair Bernoulli leaves

---
 spflow/modules/leaves/bernoulli.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index cd21076..1f69c24 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -89,7 +89,7 @@ class Bernoulli(LeafModule):
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Bernoulli]:
-        return torch.distributions.Bernoulli
+        return _BernoulliWithMode
 
     @property
     def _torch_distribution_class_with_differentiable_sampling(
@@ -194,7 +194,15 @@ class Bernoulli(LeafModule):
         return torch.log(torch.clamp(total_prob, min=1e-40))
 
 
-class BernoulliWithDifferentiableSampling(torch.distributions.Bernoulli):
+class _BernoulliWithMode(torch.distributions.Bernoulli):
+    """Bernoulli distribution whose mode is defined for fair coins, too (torch returns NaN)."""
+
+    @property
+    def mode(self) -> Tensor:
+        return (self.probs >= 0.5).to(self.probs)
+
+
+class BernoulliWithDifferentiableSampling(_BernoulliWithMode):
     """Bernoulli distribution class that supports differentiable sampling via RelaxedBernoulli."""
 
     def sample(self, sample_shape=torch.Size()):
-- 
2.43.0


From f7bc40a1aa71954d7cefeba26926f6c2a4fcc011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 30/98] fix: sampling ignores impossible evidence below
 branches that were not taken

---
 spflow/modules/conv/sum_conv.py                | 4 ++--
 spflow/modules/einsum/einsum_layer.py          | 2 +-
 spflow/modules/einsum/linsum_layer.py          | 2 +-
 spflow/modules/sums/elementwise_sum.py         | 2 +-
 spflow/modules/sums/repetition_mixing_layer.py | 2 +-
 spflow/modules/sums/sum.py                     | 2 +-
 spflow/utils/sampling_context.py               | 6 ++++++
 7 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 5d9abbd..4c8d6c9 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -386,9 +386,8 @@ class SumConv(Module):
         if input_lls is not None:
             # input_lls: (batch, H, W, in_c)
             log_posterior = selected_logits + input_lls
-            log_posterior = F.log_softmax(log_posterior, dim=-1)
         else:
-            log_posterior = F.log_softmax(selected_logits, dim=-1)
+            log_posterior = selected_logits
 
         # Sample for each position.
         log_posterior_flat = rearrange(log_posterior, "b h w ci -> (b h w) ci")
@@ -398,6 +397,7 @@ class SumConv(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
         if sampling_ctx.is_differentiable:
             sampled_channels = rearrange(
diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 4ad9dc2..feafd2d 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -540,7 +540,6 @@ class EinsumLayer(Module):
             # Compute posterior
             log_prior = logits_flat
             log_posterior = log_prior + joint_ll_flat
-            log_posterior = log_posterior - torch.logsumexp(log_posterior, dim=-1, keepdim=True)
             logits_flat = log_posterior
 
         indices = sample_from_logits(
@@ -549,6 +548,7 @@ class EinsumLayer(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
 
         # Unravel indices to (i, j) pairs
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index b54f533..1b63787 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -415,7 +415,6 @@ class LinsumLayer(Module):
             # Compute posterior
             log_prior = logits
             log_posterior = log_prior + prod_ll
-            log_posterior = log_posterior - torch.logsumexp(log_posterior, dim=-1, keepdim=True)
             logits = log_posterior
 
         indices = sample_from_logits(
@@ -424,6 +423,7 @@ class LinsumLayer(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
 
         # Sample from left and right children with same channel index
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index c03031b..cd228e1 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -432,7 +432,6 @@ class ElementwiseSum(Module):
             # Compute log posterior by reweighing logits with input lls
             log_prior = logits
             log_posterior = log_prior + input_lls
-            log_posterior = log_posterior.log_softmax(dim=2)
             logits = log_posterior
 
         # Sample/MPE over the input-module axis.
@@ -442,6 +441,7 @@ class ElementwiseSum(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
         if sampling_ctx.is_differentiable:
             selected_input = cids_stack.argmax(dim=-1)
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index e4794ab..7dd152e 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -142,7 +142,6 @@ class RepetitionMixingLayer(Sum):
             if input_lls.dim() < log_prior.dim():
                 input_lls = rearrange(input_lls, "... -> ... 1")
             log_posterior = log_prior + input_lls
-            log_posterior = log_posterior.log_softmax(dim=3)
             logits = log_posterior
 
         # Only the mixture over repetitions of the requested channel matters
@@ -159,6 +158,7 @@ class RepetitionMixingLayer(Sum):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
         if rep_logits.shape[1] != 1:
             raise ShapeError(
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index e054be0..bf352c8 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -374,7 +374,6 @@ class Sum(Module):
 
             log_prior = logits
             log_posterior = log_prior + input_lls
-            log_posterior = log_posterior.log_softmax(dim=2)
             logits = log_posterior
 
         # Sample from categorical distribution defined by weights to obtain indices into input channels
@@ -384,6 +383,7 @@ class Sum(Module):
             is_mpe=sampling_ctx.is_mpe,
             is_differentiable=sampling_ctx.is_differentiable,
             tau=sampling_ctx.tau,
+            mask=sampling_ctx.mask,
         )
 
         update_channel_index_strict(sampling_ctx, new_channel_index)
diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index 9c6f106..743149c 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -1166,6 +1166,7 @@ def sample_from_logits(
     is_mpe: bool,
     is_differentiable: bool,
     tau: float = 1.0,
+    mask: torch.Tensor | None = None,
 ):
     """
     Samples from logits based on the specified mode of operation. Supports non-differentiable
@@ -1179,10 +1180,15 @@ def sample_from_logits(
         is_differentiable (bool): If True, uses SIMPLE for differentiable sampling. If False,
             performs non-differentiable sampling.
         tau (float): Temperature for differentiable sampling.
+        mask (torch.Tensor | None): Boolean mask of the requested choices. The logits of all other
+            choices are ignored, since the evidence may be impossible below a branch that was not taken.
 
     Returns:
         torch.Tensor: The sampled indices or transformed tensor based on the mode of operation.
     """
+    if mask is not None:
+        logits = logits.masked_fill(~mask.reshape(*logits.shape[:-1], 1), 0.0)
+
     if not is_differentiable:
         if not is_mpe:
             # Sample from categorical distribution defined by weights to obtain indices into input channels
-- 
2.43.0


From e135bba8e4f9050fa8d400099299632dce8f41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 31/98] fix: one-hot routing is not poisoned by zero
 likelihoods of unselected entries

---
 spflow/utils/sampling_context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index 743149c..de331f9 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -1133,7 +1133,10 @@ def index_one_hot(tensor: torch.Tensor, index: torch.Tensor, dim: int) -> torch.
         tensor.dim() == index.dim()
     ), f"Tensor and index number of dimensions must be the same but was tensor.dim()={tensor.dim()} and index.dim()={index.dim()}"
 
-    return torch.sum(tensor * index, dim=dim)
+    # Entries of zero likelihood (-inf) must not turn unselected summands into NaN.
+    impossible = torch.isneginf(tensor)
+    selected = torch.sum(tensor.masked_fill(impossible, 0.0) * index, dim=dim)
+    return selected.masked_fill((impossible & (index > 0)).any(dim=dim), -torch.inf)
 
 
 def index_tensor(
-- 
2.43.0


From 1bc7e6b1aac0faf8c69309d5a1e4bfb4b079531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 32/98] fix: log-likelihoods with missing values can be
 differentiated

---
 spflow/modules/leaves/leaf.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 7392d2a..1f8dd2d 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -469,11 +469,6 @@ class LeafModule(Module, ABC):
             marg_mask_for_log_prob = torch.broadcast_to(marg_mask_for_log_prob, log_prob.shape)
             log_prob[marg_mask_for_log_prob] = 0.0
 
-        # Set marginalized scope data back to NaNs
-        if has_marginalizations:
-            marg_mask_for_data = rearrange(marg_mask, "b f -> b f 1 1")
-            data_q[marg_mask_for_data] = torch.nan
-
         return log_prob
 
     def _log_likelihood_interval(
-- 
2.43.0


From 1e534a27016c61ee7223a4d44f5f1574619ca6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 33/98] fix: impossible evidence below a sum no longer turns
 gradients into NaN

---
 spflow/modules/conv/sum_conv.py               |  5 ++-
 spflow/modules/einsum/einsum_layer.py         |  3 +-
 spflow/modules/einsum/linsum_layer.py         |  3 +-
 spflow/modules/sums/elementwise_sum.py        |  3 +-
 .../modules/sums/repetition_mixing_layer.py   |  3 +-
 spflow/modules/sums/sum.py                    |  3 +-
 spflow/utils/log_space.py                     | 37 +++++++++++++++++++
 7 files changed, 50 insertions(+), 7 deletions(-)
 create mode 100644 spflow/utils/log_space.py

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 4c8d6c9..2c00272 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -16,6 +16,7 @@ from spflow.exceptions import InvalidWeightsError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
+from spflow.utils.log_space import logsumexp
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -215,7 +216,7 @@ class SumConv(Module):
 
             # Weighted sum over input channels: logsumexp over dim 3 (in_channels)
             weighted_lls = ll + log_weights
-            result = torch.logsumexp(weighted_lls, dim=3)  # (batch, features, out_c, reps)
+            result = logsumexp(weighted_lls, dim=3)  # (batch, features, out_c, reps)
 
             return result
 
@@ -241,7 +242,7 @@ class SumConv(Module):
 
         # Weighted sum over input channels: logsumexp over dim 2 (in_channels)
         weighted_lls = ll + log_weights
-        result = torch.logsumexp(weighted_lls, dim=2)  # (batch, out_c, H//K, W//K, K, K, reps)
+        result = logsumexp(weighted_lls, dim=2)  # (batch, out_c, H//K, W//K, K, K, reps)
 
         # Invert the patch transformation and flatten spatial dimensions.
         result = rearrange(result, "b co oh ow kh kw r -> b (oh kh ow kw) co r")
diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index feafd2d..8bcfe49 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -36,6 +36,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
+from spflow.utils import log_space
 from spflow.utils.cache import Cache, cached
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
@@ -381,7 +382,7 @@ class EinsumLayer(Module):
 
         weights = self._normalized_weights()
         prob = self._contract_probabilities(left_prob, right_prob, weights)
-        return torch.log(prob) + left_max + right_max
+        return log_space.log(prob) + left_max + right_max
 
     @cached
     def log_likelihood(
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 1b63787..ed80ed9 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -26,6 +26,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.utils.cache import Cache, cached
+from spflow.utils.log_space import logsumexp
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -293,7 +294,7 @@ class LinsumLayer(Module):
         weighted_ll = prod_ll + log_weights
 
         # LogSumExp over input channels (dim=3)
-        log_prob = torch.logsumexp(weighted_ll, dim=3)  # (N, D, O, R)
+        log_prob = logsumexp(weighted_ll, dim=3)  # (N, D, O, R)
 
         return log_prob
 
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index cd228e1..11100d3 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -18,6 +18,7 @@ from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
+from spflow.utils.log_space import logsumexp
 from spflow.utils.projections import (
     proj_convex_to_real,
 )
@@ -519,7 +520,7 @@ class ElementwiseSum(Module):
         weighted_lls = ll + log_weights  # shape: (B, F, IC, OC)
 
         # Sum over input channels (sum_dim + 1 since here the batch dimension is the first dimension)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)
+        output = logsumexp(weighted_lls, dim=self.sum_dim + 1)
         output = rearrange(output, "b f ci co r -> b f (ci co) r")
 
         return output
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 7dd152e..211293f 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,6 +9,7 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
+from spflow.utils.log_space import logsumexp
 from spflow.utils.sampling_context import (
     SamplingContext,
     index_tensor,
@@ -241,7 +242,7 @@ class RepetitionMixingLayer(Sum):
         weighted_lls = ll + log_weights  # shape: (B, F, OC, R) + (1, F, OC, R) = (B, F, R, OC)
 
         # Sum over input channels (sum_dim + 1 since here the batch dimension is the first dimension)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)  # shape: (B, F, OC, R)
+        output = logsumexp(weighted_lls, dim=self.sum_dim + 1)  # shape: (B, F, OC, R)
 
         # Repetition axis is mixed out, so re-introduce singleton repetition dimension.
         return rearrange(output, "b f co -> b f co 1")
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index bf352c8..7a421bc 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -15,6 +15,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.cat import Cat
 from spflow.utils.cache import Cache, cached
+from spflow.utils.log_space import logsumexp
 from spflow.utils.projections import (
     proj_convex_to_real,
 )
@@ -286,7 +287,7 @@ class Sum(Module):
         weighted_lls = ll + log_weights  # shape: (B, F, IC, OC, R)
 
         # Sum over input channels (sum_dim + 1 since here the batch dimension is the first dimension)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)
+        output = logsumexp(weighted_lls, dim=self.sum_dim + 1)
 
         return output
 
diff --git a/spflow/utils/log_space.py b/spflow/utils/log_space.py
new file mode 100644
index 0000000..239a32b
--- /dev/null
+++ b/spflow/utils/log_space.py
@@ -0,0 +1,37 @@
+"""Helpers for computations on log-probabilities."""
+
+from __future__ import annotations
+
+import torch
+from torch import Tensor
+
+
+def logsumexp(log_probs: Tensor, dim: int) -> Tensor:
+    """Compute ``torch.logsumexp`` with zero instead of NaN gradients for sums without any mass.
+
+    Args:
+        log_probs: Log-probabilities.
+        dim: Dimension to sum over.
+
+    Returns:
+        Tensor: Log of the summed probabilities.
+    """
+    output = torch.logsumexp(log_probs, dim=dim)
+    impossible = torch.isneginf(output)
+    if not bool(impossible.any()):
+        return output
+    possible_log_probs = log_probs.masked_fill(impossible.unsqueeze(dim), 0.0)
+    return torch.logsumexp(possible_log_probs, dim=dim).masked_fill(impossible, -torch.inf)
+
+
+def log(probs: Tensor) -> Tensor:
+    """Compute ``torch.log`` with zero instead of NaN gradients for zero probabilities.
+
+    Args:
+        probs: Probabilities.
+
+    Returns:
+        Tensor: Log-probabilities.
+    """
+    impossible = probs == 0.0
+    return torch.log(probs.masked_fill(impossible, 1.0)).masked_fill(impossible, -torch.inf)
-- 
2.43.0


From e4faa4a501963a59d136d9331009a251991e3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 34/98] fix: row weights are normalised per estimated parameter

The sample size entering bias correction and smoothing was the number of rows
divided by features x channels x repetitions.
---
 spflow/modules/leaves/cltree.py |  4 ++--
 spflow/modules/leaves/leaf.py   |  7 ++++---
 spflow/utils/leaves.py          | 12 ++++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 6b9245e..c03aa90 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -23,7 +23,7 @@ from spflow.exceptions import InvalidParameterError, ShapeError, UnsupportedOper
 from spflow.meta import Scope
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.utils.cache import Cache, cached
-from spflow.utils.leaves import apply_nan_strategy
+from spflow.utils.leaves import apply_nan_strategy, normalize_cell_weights
 
 
 @dataclass(frozen=True)
@@ -422,7 +422,7 @@ class CLTree(LeafModule):
             raise InvalidParameterError("CLTree requires at least 2 complete samples for MLE.")
 
         _validate_discrete_values(scoped, K=self.K)
-        return scoped, weights
+        return scoped, normalize_cell_weights(weights)
 
     def maximum_likelihood_estimation(
         self,
diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 1f8dd2d..77aac6c 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -14,7 +14,7 @@ from spflow.meta.data.scope import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
-from spflow.utils.leaves import apply_nan_strategy, parse_leaf_args
+from spflow.utils.leaves import apply_nan_strategy, normalize_cell_weights, parse_leaf_args
 from spflow.utils.sampling_context import LeafParamRecord, SamplingContext
 from spflow.utils.sampling_context import index_one_hot, index_tensor, repeat_repetition_index
 
@@ -577,9 +577,10 @@ class LeafModule(Module, ABC):
             )
 
         # Step 2: Apply NaN strategy (drop/impute)
-        scoped_data, normalized_weights = apply_nan_strategy(nan_strategy, scoped_data, self.device, weights)
+        scoped_data, weights = apply_nan_strategy(nan_strategy, scoped_data, self.device, weights)
 
-        return scoped_data, normalized_weights
+        # Step 3: Every feature, channel and repetition is estimated from its own weights
+        return scoped_data, normalize_cell_weights(weights)
 
     def maximum_likelihood_estimation(
         self,
diff --git a/spflow/utils/leaves.py b/spflow/utils/leaves.py
index e07700f..9d0a190 100644
--- a/spflow/utils/leaves.py
+++ b/spflow/utils/leaves.py
@@ -90,6 +90,18 @@ def apply_nan_strategy(
     return scope_data, weights
 
 
+def normalize_cell_weights(weights: Tensor) -> Tensor:
+    """Rescale the weights of every estimated parameter to sum to the number of rows.
+
+    Args:
+        weights: Row weights of shape ``(N, ...)``; each trailing index is one parameter cell.
+
+    Returns:
+        Tensor of the same shape whose sums over the rows are all ``N``.
+    """
+    return weights * (weights.shape[0] / weights.sum(dim=0, keepdim=True))
+
+
 def init_parameter(param: Tensor | None, event_shape: tuple[int, ...], init: Callable) -> Tensor:
     """Initialize parameter tensor (uses init function if None).
 
-- 
2.43.0


From 04c369719d38c3b441084d4237f11708a1ce8726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 35/98] fix: fitting a Laplace leaf uses the weighted median of
 each cell

---
 spflow/modules/leaves/laplace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/laplace.py b/spflow/modules/leaves/laplace.py
index 404340e..ac73cea 100644
--- a/spflow/modules/leaves/laplace.py
+++ b/spflow/modules/leaves/laplace.py
@@ -97,7 +97,10 @@ class Laplace(LeafModule):
         n_total = weights.sum(dim=0)
 
         # ---- 1. Correct Laplace MLE for loc: weighted median ----
-        loc_est = torch.median(data, dim=0).values
+        order = data.argsort(dim=0)
+        cum_weights = weights.gather(0, order.expand_as(weights)).cumsum(dim=0)
+        median_idx = (cum_weights < n_total / 2).sum(dim=0, keepdim=True).clamp_max(data.shape[0] - 1)
+        loc_est = data.gather(0, order).expand_as(weights).gather(0, median_idx).squeeze(0)
 
         # ---- 2. Correct Laplace MLE for scale ----
         abs_dev = torch.abs(data - loc_est)
-- 
2.43.0


From b2af8c631464fc1b6823c10e704a3ba05cfac4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 36/98] fix: fitting constant data keeps Gamma and Exponential
 parameters finite

---
 spflow/modules/leaves/exponential.py | 2 +-
 spflow/modules/leaves/gamma.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/exponential.py b/spflow/modules/leaves/exponential.py
index 665cb5a..499dce8 100644
--- a/spflow/modules/leaves/exponential.py
+++ b/spflow/modules/leaves/exponential.py
@@ -98,7 +98,7 @@ class Exponential(LeafModule):
         if bias_correction:
             n_total = n_total - 1
 
-        rate_est = n_total / (weights * data).sum(0)
+        rate_est = n_total / _handle_mle_edge_cases((weights * data).sum(0), lb=0.0)
 
         # Handle edge cases (NaN, zero, or near-zero rate) before broadcasting
         rate_est = _handle_mle_edge_cases(rate_est, lb=0.0)
diff --git a/spflow/modules/leaves/gamma.py b/spflow/modules/leaves/gamma.py
index 908fc48..011ac71 100644
--- a/spflow/modules/leaves/gamma.py
+++ b/spflow/modules/leaves/gamma.py
@@ -140,7 +140,7 @@ class Gamma(LeafModule):
         mean_x = (weights * data).sum(dim=0) / n_total
         mean_ln_x = (weights * data_log).sum(dim=0) / n_total
 
-        theta_est = mean_xlnx - mean_x * mean_ln_x
+        theta_est = _handle_mle_edge_cases(mean_xlnx - mean_x * mean_ln_x, lb=0.0)
         concentration_est = mean_x / theta_est
         rate_est = 1 / theta_est
 
-- 
2.43.0


From 06969f97152e5ba03632865b15ee4c0e77ba2362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 37/98] fix: an EM step survives impossible rows and unused
 mixtures

---
 spflow/modules/einsum/einsum_layer.py         | 20 +++++-------
 spflow/modules/einsum/linsum_layer.py         | 11 +++----
 spflow/modules/sums/elementwise_sum.py        |  7 ++---
 .../modules/sums/repetition_mixing_layer.py   |  7 ++---
 spflow/modules/sums/sum.py                    |  7 ++---
 spflow/utils/log_space.py                     | 31 +++++++++++++++++++
 6 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 8bcfe49..66fa194 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -614,7 +614,7 @@ class EinsumLayer(Module):
             right_ll = rearrange(right_ll, "b f j r -> b f 1 r 1 j")
 
             # Get gradients (how much each output contributed)
-            log_grads = torch.log(module_lls.grad + 1e-10)
+            log_grads = torch.log(module_lls.grad)
 
             log_grads = rearrange(log_grads, "b f co r -> b f co r 1 1")
             module_lls = rearrange(module_lls, "b f co r -> b f co r 1 1")
@@ -623,21 +623,15 @@ class EinsumLayer(Module):
             joint_input_ll = left_ll + right_ll  # (B, D, 1, R, I, J)
 
             # Compute log expectations
-            log_expectations = log_weights + log_grads + joint_input_ll - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch
-
-            # Normalize to get new log weights
-            flat_expectations = rearrange(log_expectations, "f co r i j -> f co r (i j)")
-            flat_log_weights = torch.nn.functional.log_softmax(flat_expectations, dim=-1)
-            new_log_weights = rearrange(
-                flat_log_weights,
-                "f co r (i j) -> f co r i j",
-                i=self._left_channels,
-                j=self._right_channels,
+            log_expectations = log_space.log_responsibilities(
+                log_weights, log_grads, joint_input_ll, module_lls
             )
+            log_expectations = log_expectations.logsumexp(0)  # Sum over batch
 
             # M-step: update weights
-            self.log_weights = new_log_weights
+            self.log_weights = log_space.log_weights_from_counts(
+                log_expectations, self.log_weights, dim=(-2, -1)
+            )
 
         # Recurse to children
         if self._two_inputs:
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index ed80ed9..5a4343f 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -26,7 +26,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.utils.cache import Cache, cached
-from spflow.utils.log_space import logsumexp
+from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -482,20 +482,17 @@ class LinsumLayer(Module):
             prod_ll = rearrange(prod_ll, "b f ci r -> b f 1 r ci")
 
             # Get gradients
-            log_grads = torch.log(module_lls.grad + 1e-10)
+            log_grads = torch.log(module_lls.grad)
 
             log_grads = rearrange(log_grads, "b f co r -> b f co r 1")
             module_lls = rearrange(module_lls, "b f co r -> b f co r 1")
 
             # Compute log expectations
-            log_expectations = log_weights + log_grads + prod_ll - module_lls
+            log_expectations = log_responsibilities(log_weights, log_grads, prod_ll, module_lls)
             log_expectations = log_expectations.logsumexp(0)  # Sum over batch
 
-            # Normalize to get new log weights
-            new_log_weights = torch.nn.functional.log_softmax(log_expectations, dim=-1)
-
             # M-step: update weights
-            self.log_weights = new_log_weights
+            self.log_weights = log_weights_from_counts(log_expectations, self.log_weights, dim=-1)
 
         # Recurse to children
         if self._two_inputs:
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 11100d3..8f56a9f 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -18,7 +18,7 @@ from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
-from spflow.utils.log_space import logsumexp
+from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.projections import (
     proj_convex_to_real,
 )
@@ -570,12 +570,11 @@ class ElementwiseSum(Module):
                 co=self._num_sums,
             )
 
-            log_expectations = log_weights + log_grads + input_lls - module_lls
+            log_expectations = log_responsibilities(log_weights, log_grads, input_lls, module_lls)
             log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
-            log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
 
             # ----- maximization step -----
-            self.log_weights = log_expectations
+            self.log_weights = log_weights_from_counts(log_expectations, self.log_weights, dim=self.sum_dim)
 
         for inp in self.inputs:
             inp._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 211293f..07305a3 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,7 +9,7 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
-from spflow.utils.log_space import logsumexp
+from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.sampling_context import (
     SamplingContext,
     index_tensor,
@@ -284,12 +284,11 @@ class RepetitionMixingLayer(Sum):
             log_weights = rearrange(self.log_weights, "f co r -> 1 f co r")
             log_grads = torch.log(module_lls.grad)
 
-            log_expectations = log_weights + log_grads + input_lls - module_lls
+            log_expectations = log_responsibilities(log_weights, log_grads, input_lls, module_lls)
             log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
-            log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
 
             # ----- maximization step -----
-            self.log_weights = log_expectations
+            self.log_weights = log_weights_from_counts(log_expectations, self.log_weights, dim=self.sum_dim)
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 7a421bc..c60f198 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -15,7 +15,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.cat import Cat
 from spflow.utils.cache import Cache, cached
-from spflow.utils.log_space import logsumexp
+from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.projections import (
     proj_convex_to_real,
 )
@@ -438,12 +438,11 @@ class Sum(Module):
             input_lls = rearrange(input_lls, "b f ci r -> b f ci 1 r")
             module_lls = rearrange(module_lls, "b f co r -> b f 1 co r")
 
-            log_expectations = log_weights + log_grads + input_lls - module_lls
+            log_expectations = log_responsibilities(log_weights, log_grads, input_lls, module_lls)
             log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
-            log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
 
             # ----- maximization step -----
-            self.log_weights = log_expectations
+            self.log_weights = log_weights_from_counts(log_expectations, self.log_weights, dim=self.sum_dim)
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, cache=cache, bias_correction=bias_correction)
diff --git a/spflow/utils/log_space.py b/spflow/utils/log_space.py
index 239a32b..d00f423 100644
--- a/spflow/utils/log_space.py
+++ b/spflow/utils/log_space.py
@@ -35,3 +35,34 @@ def log(probs: Tensor) -> Tensor:
     """
     impossible = probs == 0.0
     return torch.log(probs.masked_fill(impossible, 1.0)).masked_fill(impossible, -torch.inf)
+
+
+def log_responsibilities(log_weights: Tensor, log_grads: Tensor, input_lls: Tensor, module_lls: Tensor) -> Tensor:
+    """Log expected counts of every weighted input, zero for evidence the module rules out.
+
+    Args:
+        log_weights: Log weights of the mixture.
+        log_grads: Log gradients of the objective with respect to ``module_lls``.
+        input_lls: Log-likelihoods of the mixture components.
+        module_lls: Log-likelihoods of the mixture.
+
+    Returns:
+        Tensor: Log responsibilities, broadcast over all arguments.
+    """
+    responsibilities = log_weights + log_grads + input_lls - module_lls
+    return responsibilities.masked_fill(torch.isneginf(module_lls), -torch.inf)
+
+
+def log_weights_from_counts(log_counts: Tensor, log_weights: Tensor, dim: int | tuple[int, ...]) -> Tensor:
+    """Normalise log expected counts, keeping the previous weights of mixtures that were never used.
+
+    Args:
+        log_counts: Log expected counts of the same shape as ``log_weights``.
+        log_weights: Normalised log weights before the update.
+        dim: Dimension(s) along which the weights sum to one.
+
+    Returns:
+        Tensor: Normalised log weights.
+    """
+    log_total = torch.logsumexp(log_counts, dim=dim, keepdim=True)
+    return torch.where(torch.isneginf(log_total), log_weights, log_counts - log_total)
-- 
2.43.0


From 0b5e96bd2937baf5e2dfb15c7b3e69aa800c6978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 38/98] fix: EM for SumConv updates every kernel position from
 its own expected counts

---
 spflow/modules/conv/sum_conv.py | 64 +++++++++++++++------------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 2c00272..2380cb0 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -16,7 +16,7 @@ from spflow.exceptions import InvalidWeightsError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
-from spflow.utils.log_space import logsumexp
+from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -483,45 +483,37 @@ class SumConv(Module):
                 # If no gradient, use uniform (this happens at the root)
                 log_grads = torch.zeros_like(module_lls)
             else:
-                log_grads = torch.log(module_lls_grad + 1e-10)
+                log_grads = torch.log(module_lls_grad)
 
-            # Current log weights: (out_c, in_c, k, k, reps)
-            # Average over kernel spatial dims for simplicity
-            log_weights = self.log_weights.mean(dim=(2, 3))  # (out_c, in_c, reps)
-
-            # Reshape for broadcasting:
-            # log_weights: (1, 1, out_c, in_c, reps)
-            # log_grads: (batch, features, out_c, 1, reps)
-            # input_lls: (batch, features, 1, in_c, reps)
-            # module_lls: (batch, features, out_c, 1, reps)
-
-            log_weights = rearrange(log_weights, "co ci r -> 1 1 co ci r")
-            log_grads = rearrange(log_grads, "b f co r -> b f co 1 r")
-            input_lls = rearrange(input_lls, "b f ci r -> b f 1 ci r")
-            module_lls = rearrange(module_lls, "b f co r -> b f co 1 r")
-
-            # Compute log expectations
-            # This follows the standard EM derivation for mixture models
-            log_expectations = log_weights + log_grads + input_lls - module_lls
-            # Shape: (batch, features, out_c, in_c, reps)
-
-            # Sum over batch and features dimensions
-            log_expectations = torch.logsumexp(log_expectations, dim=0)  # (features, out_c, in_c, reps)
-            log_expectations = torch.logsumexp(log_expectations, dim=0)  # (out_c, in_c, reps)
-
-            # Normalize over in_channels (sum dimension for this module)
-            # The sum_dim for SumConv is dimension 1 (in_channels)
-            log_expectations = torch.log_softmax(log_expectations, dim=1)
-
-            # Update log_weights: need to expand to full kernel shape
-            # Current shape: (out_c, in_c, reps)
-            # Target shape: (out_c, in_c, k, k, reps)
+            # log_weights: (out_c, in_c, k, k, reps)
+            # log_grads, module_lls: (batch, features, out_c, reps)
+            # input_lls: (batch, features, in_c, reps)
             k = self.kernel_size
-            new_log_weights = rearrange(log_expectations, "co ci r -> co ci 1 1 r")
-            new_log_weights = repeat(new_log_weights, "co ci 1 1 r -> co ci kh kw r", kh=k, kw=k)
+            hw = int(input_lls.shape[1] ** 0.5)
+            if hw < k:
+                # Grids smaller than the kernel only use its first position
+                pattern = "b f {} r -> (b f) {} 1 1 r"
+                sizes = {}
+                log_weights = self.log_weights[:, :, :1, :1]
+            else:
+                pattern = "b (oh kh ow kw) {} r -> (b oh ow) {} kh kw r"
+                sizes = {"oh": hw // k, "kh": k, "ow": hw // k, "kw": k}
+                log_weights = self.log_weights
+            log_expectations = log_responsibilities(
+                log_weights,
+                rearrange(log_grads, pattern.format("co", "co 1"), **sizes),
+                rearrange(input_lls, pattern.format("ci", "1 ci"), **sizes),
+                rearrange(module_lls, pattern.format("co", "co 1"), **sizes),
+            )
+            # Sum over the batch and all patches, normalize over in_channels
+            log_expectations = torch.logsumexp(log_expectations, dim=0)
+            new_log_weights = self.log_weights.clone()
+            new_log_weights[:, :, : log_weights.shape[2], : log_weights.shape[3]] = log_weights_from_counts(
+                log_expectations, log_weights, dim=1
+            )
 
             # Set new weights
-            self.logits.data = new_log_weights.contiguous()
+            self.logits.data = new_log_weights
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, cache=cache, bias_correction=bias_correction)
-- 
2.43.0


From 0b9f239d288f8d1ad34f68304ae0441270763c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 39/98] fix: EM of ElementwiseSum shares single-channel inputs
 as its likelihood does

---
 spflow/modules/sums/elementwise_sum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 8f56a9f..d6a34c2 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -547,6 +547,8 @@ class ElementwiseSum(Module):
                 inp_ll = cache.get("log_likelihood", inp)
                 if inp_ll is None:
                     raise MissingCacheError("Input log-likelihoods not found in cache.")
+                if inp_ll.shape[2] == 1 and self.in_shape.channels > 1:
+                    inp_ll = repeat(inp_ll, "b f 1 r -> b f ci r", ci=self.in_shape.channels)
                 input_lls.append(inp_ll)
             input_lls = torch.stack(input_lls, dim=3)
 
-- 
2.43.0


From 3c30c9c954e612350c0c4f9b65a308647a5c841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 40/98] fix: an EM step updates modules shared by several
 parents once

---
 spflow/modules/conv/sum_conv.py               |  3 ++-
 spflow/modules/einsum/einsum_layer.py         |  3 ++-
 spflow/modules/einsum/linsum_layer.py         |  3 ++-
 spflow/modules/sums/elementwise_sum.py        |  3 ++-
 .../modules/sums/repetition_mixing_layer.py   |  3 ++-
 spflow/modules/sums/sum.py                    |  3 ++-
 spflow/utils/cache.py                         | 24 +++++++++++++++++++
 7 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 2380cb0..9696cd6 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -15,7 +15,7 @@ from torch.nn import functional as F
 from spflow.exceptions import InvalidWeightsError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
@@ -427,6 +427,7 @@ class SumConv(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 66fa194..03f5c24 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -37,7 +37,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.utils import log_space
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -585,6 +585,7 @@ class EinsumLayer(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 5a4343f..1220234 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -25,7 +25,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
@@ -451,6 +451,7 @@ class LinsumLayer(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index d6a34c2..0c8cd4d 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -17,7 +17,7 @@ from spflow.exceptions import (
 from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.projections import (
     proj_convex_to_real,
@@ -525,6 +525,7 @@ class ElementwiseSum(Module):
 
         return output
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 07305a3..e799582 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -8,7 +8,7 @@ from torch import Tensor
 from spflow.exceptions import InvalidParameterCombinationError, MissingCacheError, ScopeError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -247,6 +247,7 @@ class RepetitionMixingLayer(Sum):
         # Repetition axis is mixed out, so re-introduce singleton repetition dimension.
         return rearrange(output, "b f co -> b f co 1")
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index c60f198..f9f849f 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -14,7 +14,7 @@ from spflow.exceptions import (
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.cat import Cat
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.log_space import log_responsibilities, log_weights_from_counts, logsumexp
 from spflow.utils.projections import (
     proj_convex_to_real,
@@ -399,6 +399,7 @@ class Sum(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/utils/cache.py b/spflow/utils/cache.py
index 2d1f094..566014b 100644
--- a/spflow/utils/cache.py
+++ b/spflow/utils/cache.py
@@ -133,3 +133,27 @@ def cached(func: Callable[..., T]) -> Callable[..., T]:
         return result
 
     return wrapper
+
+
+def once_per_cache(func: Callable[..., None]) -> Callable[..., None]:
+    """Decorator running an update at most once per module and cache.
+
+    Modules shared by several parents are reached once per parent; their update uses the results
+    cached before it and must not be applied again on top of itself.
+
+    Args:
+        func: Update method with ``cache`` as keyword argument.
+
+    Returns:
+        Callable: Wrapped method.
+    """
+    method_name = func.__name__
+
+    @functools.wraps(func)
+    def wrapper(self: Module, *args, cache: Cache, **kwargs) -> None:
+        if cache.get(method_name, self) is not None:
+            return
+        func(self, *args, cache=cache, **kwargs)
+        cache.set(method_name, self, True)
+
+    return wrapper
-- 
2.43.0


From 17831d97b3550a8359d3a0d3271ca3a39a81010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 41/98] fix: fitting an all-ones Bernoulli leaf keeps its
 log-likelihood finite

---
 spflow/modules/leaves/bernoulli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index 1f69c24..f153536 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -122,7 +122,7 @@ class Bernoulli(LeafModule):
         p_est = n_success / n_total
 
         # Handle edge cases (NaN, zero, or near-zero p) before broadcasting
-        p_est = _handle_mle_edge_cases(p_est, lb=0.0)
+        p_est = _handle_mle_edge_cases(p_est, lb=0.0, ub=1.0)
 
         return {"probs": p_est}
 
-- 
2.43.0


From 7a092374a4fd528970d423b39f78a0ed3a462880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 42/98] fix: equal scopes hash equally regardless of the order
 of their variables

---
 spflow/meta/data/scope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index 71cfe0e..bd26ddc 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -118,6 +118,10 @@ class Scope:
         """
         return self.equal_query(other) and self.equal_evidence(other)
 
+    def __hash__(self) -> int:
+        """Hashes the sets of query and evidence RVs, consistent with equality."""
+        return hash((frozenset(self.query), frozenset(self.evidence)))
+
     def __len__(self) -> int:
         """Returns the number of query variables in the scope.
 
-- 
2.43.0


From 86a1818a996682f6d522434cb49e3b8fd0a1b0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 43/98] fix: a Scope built from a tensor holds plain variable
 indices

---
 spflow/meta/data/scope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index bd26ddc..3c48de2 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -54,13 +54,13 @@ class Scope:
             query = [query]
         elif not isinstance(query, (list, tuple)):
             # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
-            query = list(query)
+            query = query.tolist() if hasattr(query, "tolist") else list(query)
 
         if isinstance(evidence, int):
             evidence = [evidence]
         elif not isinstance(evidence, (list, tuple)):
             # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
-            evidence = list(evidence)
+            evidence = evidence.tolist() if hasattr(evidence, "tolist") else list(evidence)
 
         if len(query) == 0 and len(evidence) != 0:
             raise InvalidParameterError(
-- 
2.43.0


From 2cbcbe84069d58c01deb640273ad500937627f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 44/98] fix: a SamplingContext built from num_samples knows its
 device

---
 spflow/utils/sampling_context.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index de331f9..584daae 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -271,6 +271,7 @@ class SamplingContext:
                 channel_index = torch.zeros((num_samples, 1), dtype=torch.long, device=device)
                 repetition_index = torch.zeros((num_samples,), dtype=torch.long, device=device)
             mask = torch.full((num_samples, 1), True, dtype=torch.bool, device=device)
+            self.device = channel_index.device
             self.update(
                 channel_index=channel_index,
                 mask=mask,
-- 
2.43.0


From 66b06967d4bebafdc1e92c883f437242bcd87550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:33 +0000
Subject: [PATCH 45/98] fix: SamplingContext.update without a repetition index
 keeps the batch consistent

---
 spflow/utils/sampling_context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index 584daae..697fe8c 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -325,7 +325,12 @@ class SamplingContext:
         mask: Tensor,
         repetition_index: Tensor | None = None,
     ) -> None:
-        """Normalize and commit a routing state atomically."""
+        """Normalize and commit a routing state atomically.
+
+        Without ``repetition_index`` the current one is kept, so it must fit the new routing.
+        """
+        if repetition_index is None:
+            repetition_index = self._repetition_index
         channel_index, mask, repetition_index = self._normalize_routing_state(
             channel_index=channel_index,
             mask=mask,
-- 
2.43.0


From 73102f1f118d4bfdf00f9c778fe070558c0f1197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:33 +0000
Subject: [PATCH 46/98] fix: leaf parameter records accept entries routed to a
 sibling

---
 spflow/modules/leaves/leaf.py    | 4 +++-
 spflow/utils/sampling_context.py | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 77aac6c..fe2c8bb 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -922,8 +922,10 @@ class LeafModule(Module, ABC):
                     "Differentiable channel routing feature width mismatch for leaf parameters: "
                     f"got {channel_weights.shape[1]}, expected 1 or {params.shape[1]}."
                 )
+            # Entries routed to a sibling (see route_channel_offsets) carry no channel of this leaf.
             one_hot_sums = channel_weights.sum(dim=2)
-            if not torch.allclose(one_hot_sums, torch.ones_like(one_hot_sums), rtol=0.0, atol=1e-6):
+            routed_sums = one_hot_sums[one_hot_sums != 0]
+            if not torch.allclose(routed_sums, torch.ones_like(routed_sums), rtol=0.0, atol=1e-6):
                 raise ShapeError(
                     "Differentiable channel routing for leaf parameters must be one-hot encoded per (sample, feature)."
                 )
diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index 697fe8c..50bbd18 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -338,8 +338,7 @@ class SamplingContext:
         )
         self._channel_index = channel_index
         self._mask = mask
-        if repetition_index is not None:
-            self._repetition_index = repetition_index
+        self._repetition_index = repetition_index
 
     @property
     def channel_index(self) -> Tensor:
-- 
2.43.0


From 89e80e5479e7360fe6f3aa83161a3b412c5826e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 47/98] fix: probabilities of exactly 0 and 1 keep finite
 log-odds

---
 spflow/utils/projections.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/projections.py b/spflow/utils/projections.py
index 27c3475..6b436a0 100644
--- a/spflow/utils/projections.py
+++ b/spflow/utils/projections.py
@@ -3,6 +3,8 @@
 Used for internal projections of Tensor parameters.
 """
 
+import math
+
 import torch
 from torch import Tensor
 
@@ -132,8 +134,10 @@ def proj_bounded_to_real(
         Tensor of same shape as ``x`` containing the projected values.
     """
     if lb is not None and ub is not None:
-        # project from bounded interval
-        return torch.log((x - lb) / (ub - x))
+        # project from bounded interval; the bounds themselves map to the largest finite log-odds
+        log_odds = torch.log((x - lb) / (ub - x))
+        limit = math.log(torch.finfo(log_odds.dtype).max)
+        return torch.clamp(log_odds, min=-limit, max=limit)
     elif ub is None:
         # project from left-bounded interval
         return torch.log(x - lb)
-- 
2.43.0


From 517a1955fcaee07b92b0f8f6713cbc70ca2ca0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 48/98] fix: parameters never share storage with the caller's
 tensors

---
 spflow/modules/einsum/einsum_layer.py      | 2 +-
 spflow/modules/einsum/linsum_layer.py      | 2 +-
 spflow/modules/leaves/bernoulli.py         | 3 ++-
 spflow/modules/leaves/binomial.py          | 4 ++--
 spflow/modules/leaves/categorical.py       | 2 +-
 spflow/modules/leaves/geometric.py         | 2 +-
 spflow/modules/leaves/histogram.py         | 2 +-
 spflow/modules/leaves/hypergeometric.py    | 6 +++---
 spflow/modules/leaves/negative_binomial.py | 4 ++--
 spflow/modules/leaves/uniform.py           | 4 ++--
 spflow/modules/sums/elementwise_sum.py     | 2 +-
 spflow/modules/sums/sum.py                 | 2 +-
 spflow/utils/leaves.py                     | 3 ++-
 13 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 03f5c24..b61b263 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -274,7 +274,7 @@ class EinsumLayer(Module):
         """Set log weights directly."""
         if values.shape != self.weights_shape:
             raise ShapeError(f"Log weight shape mismatch: expected {self.weights_shape}, got {values.shape}")
-        self.logits.data = values
+        self.logits.data = values.detach().clone()
         self._clear_eval_weight_cache()
 
     def extra_repr(self) -> str:
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 1220234..4fe0dee 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -231,7 +231,7 @@ class LinsumLayer(Module):
         """Set log weights directly."""
         if values.shape != self.weights_shape:
             raise ShapeError(f"Log weight shape mismatch: expected {self.weights_shape}, got {values.shape}")
-        self.logits.data = values
+        self.logits.data = values.detach().clone()
 
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, weights={self.weights_shape}"
diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index f153536..bc6f2eb 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -80,7 +80,8 @@ class Bernoulli(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         """Set logits directly."""
-        self._logits.data = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
+        value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/leaves/binomial.py b/spflow/modules/leaves/binomial.py
index edaf756..5023108 100644
--- a/spflow/modules/leaves/binomial.py
+++ b/spflow/modules/leaves/binomial.py
@@ -101,7 +101,7 @@ class Binomial(LeafModule):
         Args:
             total_count: Floating point representing the number of trials.
         """
-        self._total_count = total_count
+        self._total_count = total_count.detach().clone()
 
     @property
     def probs(self) -> Tensor:
@@ -122,7 +122,7 @@ class Binomial(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/leaves/categorical.py b/spflow/modules/leaves/categorical.py
index 52b7a4e..53f4fdc 100644
--- a/spflow/modules/leaves/categorical.py
+++ b/spflow/modules/leaves/categorical.py
@@ -101,7 +101,7 @@ class Categorical(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/leaves/geometric.py b/spflow/modules/leaves/geometric.py
index 6160511..8c7f264 100644
--- a/spflow/modules/leaves/geometric.py
+++ b/spflow/modules/leaves/geometric.py
@@ -83,7 +83,7 @@ class Geometric(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/leaves/histogram.py b/spflow/modules/leaves/histogram.py
index b3b65fc..f7d422b 100644
--- a/spflow/modules/leaves/histogram.py
+++ b/spflow/modules/leaves/histogram.py
@@ -260,7 +260,7 @@ class Histogram(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def probs(self) -> Tensor:
diff --git a/spflow/modules/leaves/hypergeometric.py b/spflow/modules/leaves/hypergeometric.py
index d663452..5e473f9 100644
--- a/spflow/modules/leaves/hypergeometric.py
+++ b/spflow/modules/leaves/hypergeometric.py
@@ -302,9 +302,9 @@ class Hypergeometric(LeafModule):
         self.check_inputs(K, N, n, self.event_shape)
 
         # Assign parameters
-        self.K = K
-        self.N = N
-        self.n = n
+        self.K = K.detach().clone()
+        self.N = N.detach().clone()
+        self.n = n.detach().clone()
 
     def check_inputs(self, K: Tensor, N: Tensor, n: Tensor, event_shape: tuple[int, ...]):
         """Validate hypergeometric parameters."""
diff --git a/spflow/modules/leaves/negative_binomial.py b/spflow/modules/leaves/negative_binomial.py
index dabe979..e966430 100644
--- a/spflow/modules/leaves/negative_binomial.py
+++ b/spflow/modules/leaves/negative_binomial.py
@@ -91,7 +91,7 @@ class NegativeBinomial(LeafModule):
         Args:
             total_count: Non-negative number of required successes.
         """
-        self._total_count = total_count
+        self._total_count = total_count.detach().clone()
 
     @property
     def probs(self) -> Tensor:
@@ -112,7 +112,7 @@ class NegativeBinomial(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/leaves/uniform.py b/spflow/modules/leaves/uniform.py
index 98ed4ef..7768680 100644
--- a/spflow/modules/leaves/uniform.py
+++ b/spflow/modules/leaves/uniform.py
@@ -66,8 +66,8 @@ class Uniform(LeafModule):
         self.register_buffer("end_next", torch.empty(size=[]))
         self.register_buffer("_support_outside", torch.empty(size=[]))
 
-        self.low = low
-        self.high = high
+        self.low = low.detach().clone()
+        self.high = high.detach().clone()
         self.end_next = torch.nextafter(high, high.new_tensor(float("inf")))
         self._support_outside = high.new_tensor(support_outside, dtype=torch.bool)
 
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 0c8cd4d..4a00e6d 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -227,7 +227,7 @@ class ElementwiseSum(Module):
         """
         if values.shape != self.log_weights.shape:
             raise ValueError(f"Invalid shape for weights: {values.shape}.")
-        self.logits.data = values
+        self.logits.data = values.detach().clone()
 
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, weights={self.weights_shape}"
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index f9f849f..f3f0c51 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -242,7 +242,7 @@ class Sum(Module):
         """
         if values.shape != self.log_weights.shape:
             raise ShapeError(f"Invalid shape for weights: {values.shape}.")
-        self.logits.data = values
+        self.logits.data = values.detach().clone()
 
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, weights={self.weights_shape}"
diff --git a/spflow/utils/leaves.py b/spflow/utils/leaves.py
index 9d0a190..d757448 100644
--- a/spflow/utils/leaves.py
+++ b/spflow/utils/leaves.py
@@ -121,7 +121,8 @@ def init_parameter(param: Tensor | None, event_shape: tuple[int, ...], init: Cal
     else:
         if not torch.isfinite(param).all():
             raise ValueError("Parameter must be finite.")
-        return param
+        # Copy, so that the module never shares storage with the caller's tensor.
+        return param.detach().clone()
 
 
 def parse_leaf_args(
-- 
2.43.0


From a6c95774b1a97abc5ae0d1a66f8d7675b9c2b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:18 +0000
Subject: [PATCH 49/98] fix: Histogram constructor rejects negative bin
 probabilities

---
 spflow/modules/leaves/histogram.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/modules/leaves/histogram.py b/spflow/modules/leaves/histogram.py
index f7d422b..99e4b24 100644
--- a/spflow/modules/leaves/histogram.py
+++ b/spflow/modules/leaves/histogram.py
@@ -222,6 +222,9 @@ class Histogram(LeafModule):
         if not torch.all(bin_edges[1:] > bin_edges[:-1]):
             raise InvalidParameterError("bin_edges must be strictly increasing.")
 
+        if probs is not None and (probs < 0).any():
+            raise InvalidParameterError("probs must be non-negative.")
+
         self._min_prob = float(min_prob)
         param_source = logits if logits is not None else probs
 
-- 
2.43.0


From 71d3550ef16801f6a9008230d0b223e077d9422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 50/98] fix: einsum evaluation weights follow every change of
 the logits

---
 spflow/modules/einsum/einsum_layer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index b61b263..4c4bd1e 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -202,7 +202,7 @@ class EinsumLayer(Module):
 
         # Register logits parameter
         self.logits = nn.Parameter(torch.zeros(self.weights_shape))
-        self._eval_weight_cache: tuple[int, Tensor] | None = None
+        self._eval_weight_cache: tuple[Tensor, Tensor] | None = None
 
         # Set weights via property (converts to logits)
         self.weights = weights
@@ -315,20 +315,19 @@ class EinsumLayer(Module):
             return weights.unflatten(-1, (self._left_channels, self._right_channels))
 
         cache_entry = self._eval_weight_cache
-        current_version = self.logits._version
         if cache_entry is not None:
-            cached_version, cached_weights = cache_entry
+            cached_logits, cached_weights = cache_entry
             if (
-                cached_version == current_version
-                and cached_weights.device == self.logits.device
+                cached_weights.device == self.logits.device
                 and cached_weights.dtype == self.logits.dtype
+                and torch.equal(cached_logits, self.logits)
             ):
                 return cached_weights
 
         flat_logits = self.logits.flatten(start_dim=-2)
         weights = torch.nn.functional.softmax(flat_logits, dim=-1)
         normalized = weights.unflatten(-1, (self._left_channels, self._right_channels))
-        self._eval_weight_cache = (current_version, normalized)
+        self._eval_weight_cache = (self.logits.detach().clone(), normalized)
         return normalized
 
     def _use_factored_probability_contraction(self, device: torch.device) -> bool:
-- 
2.43.0


From 76cdb30443d7b4c2ec3ee8aca8c030c4953a150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:34 +0000
Subject: [PATCH 51/98] fix: weigh the classes of RatSPN and Einet by the
 evidence when sampling

The class of a conditional sample was drawn from the prior alone, and RatSPN as a
submodule always used class 0.
---
 spflow/utils/sampling_context.py | 39 ++++++++++++++++++++++++++++++++
 spflow/zoo/einet/einet.py        | 16 ++++---------
 spflow/zoo/rat/rat_spn.py        | 30 +++++++++---------------
 3 files changed, 55 insertions(+), 30 deletions(-)

diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index 50bbd18..7c6ac84 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -24,6 +24,7 @@ from torch import Tensor
 from torch.nn import functional as F
 
 from spflow.exceptions import InvalidParameterError, ShapeError
+from spflow.utils.cache import Cache
 
 
 @dataclass
@@ -1207,3 +1208,41 @@ def sample_from_logits(
     else:
         # Use SIMPLE to sample differentiably from the distribution defined by logits
         return SIMPLE(logits=logits, dim=dim, is_mpe=is_mpe, tau=tau)
+
+
+def sample_class_index(
+    logits: Tensor,
+    inputs: object,
+    sampling_ctx: SamplingContext,
+    cache: Cache,
+) -> Tensor:
+    """Choose the class of each sample of a multi-class root.
+
+    The classes are weighted by the prior and, if the log-likelihoods of the class
+    inputs are cached, by the evidence under each class.
+
+    Args:
+        logits: Class logits of shape (1, num_classes, 1).
+        inputs: Module whose output channels are the classes.
+        sampling_ctx: Sampling context of the root.
+        cache: Cache that may hold the log-likelihoods of `inputs`.
+
+    Returns:
+        Tensor: Class assignment of each sample as a channel index.
+    """
+    class_logits = torch.log_softmax(logits.reshape(1, 1, -1), dim=-1)
+    class_logits = class_logits.repeat(sampling_ctx.channel_index.shape[0], 1, 1)
+
+    input_lls = cache.get("log_likelihood", inputs)
+    if input_lls is not None:
+        posterior = class_logits + input_lls[..., 0]
+        possible = torch.isfinite(posterior).any(dim=-1, keepdim=True)
+        class_logits = torch.where(possible, posterior, class_logits)
+
+    return sample_from_logits(
+        logits=class_logits,
+        dim=-1,
+        is_mpe=sampling_ctx.is_mpe,
+        is_differentiable=sampling_ctx.is_differentiable,
+        tau=sampling_ctx.tau,
+    )
diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 5605810..6b0ece4 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -14,7 +14,7 @@ from typing import Literal, Optional
 
 import numpy as np
 import torch
-from einops import rearrange, repeat
+from einops import rearrange
 from torch import nn
 
 from spflow.exceptions import InvalidParameterError, UnsupportedOperationError
@@ -32,7 +32,7 @@ from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
 from spflow.utils.inference import log_posterior
-from spflow.utils.sampling_context import LeafParamRecord, SamplingContext
+from spflow.utils.sampling_context import LeafParamRecord, SamplingContext, sample_class_index
 
 
 class Einet(Module, Classifier):
@@ -439,8 +439,6 @@ class Einet(Module, Classifier):
         if self._has_partial_evidence(data):
             self.log_likelihood(data, cache=cache)
 
-        batch_size = data.shape[0]
-
         # Root canonicalization guarantees class routing logits at (1, C, 1).
         # Handle class sampling for multi-class models.
         if self.num_classes > 1:
@@ -451,13 +449,9 @@ class Einet(Module, Classifier):
                 raise InvalidParameterError(
                     f"Expected logits shape (1, {self.num_classes}, 1), got {logits.shape}"
                 )
-            logits = rearrange(logits, "1 co 1 -> 1 1 co")
-            logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)
-
-            if sampling_ctx.is_mpe:
-                sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
-            else:
-                sampling_ctx.channel_index = torch.distributions.Categorical(logits=logits).sample()
+            sampling_ctx.channel_index = sample_class_index(
+                logits, self.root_node.inputs, sampling_ctx, cache
+            )
 
         # Sample from appropriate root
         if self.num_classes > 1:
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index 21c08b4..8d0cd21 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -13,7 +13,7 @@ from __future__ import annotations
 
 import numpy as np
 import torch
-from einops import rearrange, repeat
+from einops import rearrange
 
 from spflow.exceptions import InvalidParameterError, UnsupportedOperationError
 from spflow.interfaces.classifier import Classifier
@@ -30,7 +30,7 @@ from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
 from spflow.utils.inference import log_posterior
-from spflow.utils.sampling_context import LeafParamRecord, SamplingContext
+from spflow.utils.sampling_context import LeafParamRecord, SamplingContext, sample_class_index
 
 
 class RatSPN(Module, Classifier):
@@ -290,23 +290,6 @@ class RatSPN(Module, Classifier):
             return_leaf_params=return_leaf_params,
         )
 
-        # Draw root routing for public sampling entrypoint.
-        if self.n_root_nodes > 1:
-            logits = self.root_node.logits
-            if logits.ndim == 4 and logits.shape[-1] == 1:
-                logits = logits.squeeze(-1)
-            if logits.shape != (1, self.n_root_nodes, 1):
-                raise InvalidParameterError(
-                    f"Expected logits shape (1, {self.n_root_nodes}, 1), but got {logits.shape}"
-                )
-            logits = rearrange(logits, "1 co 1 -> 1 1 co")
-            logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)  # shape [b, 1, n_root_nodes]
-
-            if sampling_ctx.is_mpe:
-                sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
-            else:
-                sampling_ctx.channel_index = torch.distributions.Categorical(logits=logits).sample()
-
         samples = self._sample(
             data=data,
             sampling_ctx=sampling_ctx,
@@ -325,6 +308,15 @@ class RatSPN(Module, Classifier):
         # if the model only has one root node, we can directly sample from the mixing layer
         if self.n_root_nodes > 1:
             sample_root = self.root_node.inputs
+
+            logits = self.root_node.logits
+            if logits.ndim == 4 and logits.shape[-1] == 1:
+                logits = logits.squeeze(-1)
+            if logits.shape != (1, self.n_root_nodes, 1):
+                raise InvalidParameterError(
+                    f"Expected logits shape (1, {self.n_root_nodes}, 1), but got {logits.shape}"
+                )
+            sampling_ctx.channel_index = sample_class_index(logits, sample_root, sampling_ctx, cache)
         else:
             sample_root = self.root_node
 
-- 
2.43.0


From dd5d35955df6fa26f99becd05213db6584a151a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 52/98] fix: reject convolutions whose patches do not cover all
 inputs

The uncovered rows and columns were silently dropped although the scope still
listed their variables, and ConvPc accepted sizes that fail when evaluated.
---
 spflow/modules/conv/prod_conv.py | 14 ++++++++++++++
 spflow/zoo/conv/conv_pc.py       | 12 +++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 6ca5198..6297102 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -86,6 +86,15 @@ class ProdConv(Module):
         out_h = padded_h // kernel_size_h
         out_w = padded_w // kernel_size_w
 
+        # Positions outside of all patches would silently be dropped
+        self._covers_input = (
+            out_h * kernel_size_h - padding_h >= in_h and out_w * kernel_size_w - padding_w >= in_w
+        )
+        if not self._covers_input and padding_h == 0 and padding_w == 0:
+            raise ShapeError(
+                f"Patches of size ({kernel_size_h}, {kernel_size_w}) do not cover inputs of size ({in_h}, {in_w})."
+            )
+
         self._input_h = in_h
         self._input_w = in_w
         self._output_h = out_h
@@ -186,6 +195,11 @@ class ProdConv(Module):
         Returns:
             Tensor: Log-likelihood of shape (batch, out_features, channels, reps).
         """
+        if not self._covers_input:
+            raise ShapeError(
+                f"Padded patches do not cover inputs of size ({self._input_h}, {self._input_w})."
+            )
+
         # Get input log-likelihoods: (batch, features, channels, reps)
         ll = self.inputs.log_likelihood(data, cache=cache)
 
diff --git a/spflow/zoo/conv/conv_pc.py b/spflow/zoo/conv/conv_pc.py
index 30f2c78..db2c13a 100644
--- a/spflow/zoo/conv/conv_pc.py
+++ b/spflow/zoo/conv/conv_pc.py
@@ -12,7 +12,7 @@ import numpy as np
 import torch
 from torch import Tensor
 
-from spflow.exceptions import UnsupportedOperationError
+from spflow.exceptions import ShapeError, UnsupportedOperationError
 from spflow.modules.conv.prod_conv import ProdConv
 from spflow.modules.conv.sum_conv import SumConv
 from spflow.modules.module import Module
@@ -170,6 +170,16 @@ class ConvPc(Module):
             H_target=h,
             W_target=w,
         )
+        if input_height != input_width or leaf.out_shape.features != input_height * input_width:
+            raise ShapeError(
+                f"The leaf must have one feature per pixel of a square image, got "
+                f"{leaf.out_shape.features} features for ({input_height}, {input_width})."
+            )
+        if kh * h != input_height + 2 * ph or kw * w != input_width + 2 * pw:
+            raise ShapeError(
+                f"An image of size ({input_height}, {input_width}) cannot be padded evenly to a multiple of "
+                f"({h}, {w}), as required by depth={depth} and kernel_size={kernel_size}."
+            )
         layer_specs.append(
             (
                 "prod_bottom",
-- 
2.43.0


From b35968d023aac15ebc80bd410e133239637b4d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 53/98] fix: ConvPc rejects leaves with several repetitions

It reported one repetition although its output had several, or failed when evaluated.
---
 spflow/zoo/conv/conv_pc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/zoo/conv/conv_pc.py b/spflow/zoo/conv/conv_pc.py
index db2c13a..b9d1ba9 100644
--- a/spflow/zoo/conv/conv_pc.py
+++ b/spflow/zoo/conv/conv_pc.py
@@ -170,6 +170,10 @@ class ConvPc(Module):
             H_target=h,
             W_target=w,
         )
+        if leaf.out_shape.repetitions != num_repetitions:
+            raise ShapeError(
+                f"The leaf must have {num_repetitions} repetition(s), got {leaf.out_shape.repetitions}."
+            )
         if input_height != input_width or leaf.out_shape.features != input_height * input_width:
             raise ShapeError(
                 f"The leaf must have one feature per pixel of a square image, got "
-- 
2.43.0


From bbadacc1350d15684e83d466f3219f96a31f9fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 54/98] fix: exact measures find the leaves of ready-made
 architectures and wrappers

---
 spflow/measures/_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/measures/_utils.py b/spflow/measures/_utils.py
index e61f1ba..dcb709e 100644
--- a/spflow/measures/_utils.py
+++ b/spflow/measures/_utils.py
@@ -83,6 +83,9 @@ def iter_modules(module: Module) -> Iterator[Module]:
         except AttributeError:
             inputs = None
 
+    if inputs is None:
+        # Ready-made architectures and wrappers hold the circuit in another attribute
+        inputs = getattr(module, "root_node", None) or getattr(module, "module", None)
     if inputs is None:
         return
 
-- 
2.43.0


From 09b61989d7def8ea6d92a717be82578e34f5cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 55/98] fix: information measures accept any variable numbering
 and reject empty scopes

---
 spflow/measures/information_theory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/measures/information_theory.py b/spflow/measures/information_theory.py
index 140e409..9e6884a 100644
--- a/spflow/measures/information_theory.py
+++ b/spflow/measures/information_theory.py
@@ -58,7 +58,7 @@ def entropy(
         if grid.dim() == 1:
             grid = grid.unsqueeze(1)
 
-        d = len(model.scope.query)
+        d = max(model.scope.query) + 1
         data = torch.full((grid.shape[0], d), torch.nan, device=model.device, dtype=torch.get_default_dtype())
         for j, rv in enumerate(rvs):
             data[:, rv] = grid[:, j]
@@ -109,6 +109,8 @@ def mutual_information(
     y_scope = as_scope(y_scope)
     if set(x_scope.query).intersection(y_scope.query):
         raise InvalidParameterError("x_scope and y_scope must be disjoint for mutual_information.")
+    if x_scope.empty() or y_scope.empty():
+        raise InvalidParameterError("x_scope and y_scope must be non-empty for mutual_information.")
 
     if method == "exact":
         h_x = entropy(
@@ -185,6 +187,8 @@ def conditional_mutual_information(
     all_rvs = list(x_scope.query) + list(y_scope.query) + list(z_scope.query)
     if len(set(all_rvs)) != len(all_rvs):
         raise InvalidParameterError("x_scope, y_scope, and z_scope must be pairwise disjoint.")
+    if x_scope.empty() or y_scope.empty() or z_scope.empty():
+        raise InvalidParameterError("x_scope, y_scope, and z_scope must be non-empty.")
 
     if method == "exact":
         h_z = entropy(
-- 
2.43.0


From 613e20b07da448e1a8c37bfcdcd531f0ce8bd05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 56/98] fix: leave-one-out weight of evidence is NaN for
 missing cells of a batch

---
 spflow/measures/weight_of_evidence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/weight_of_evidence.py b/spflow/measures/weight_of_evidence.py
index 98c5b48..47607a8 100644
--- a/spflow/measures/weight_of_evidence.py
+++ b/spflow/measures/weight_of_evidence.py
@@ -203,7 +203,7 @@ def weight_of_evidence_leave_one_out(
             repetition_agg=repetition_agg,
         )
 
-        out[:, j] = w
+        out[:, j] = torch.where(score_mask[:, j], w.to(out.dtype), out[:, j])
 
     return out
 
-- 
2.43.0


From 01af42b5c3dca67dfb19dbcdd86bc39941e55bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:33 +0000
Subject: [PATCH 57/98] fix: the classifier wrapper rejects labels that do not
 match the classes of the model

With fewer labels than classes predictions were misassigned or failed with an index error.
---
 spflow/interfaces/sklearn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/interfaces/sklearn.py b/spflow/interfaces/sklearn.py
index 7a06a3d..40e4274 100644
--- a/spflow/interfaces/sklearn.py
+++ b/spflow/interfaces/sklearn.py
@@ -348,5 +348,9 @@ class SPFlowClassifier(BaseEstimator, ClassifierMixin):
         """Predict class labels using argmax over predicted probabilities."""
         check_is_fitted(self, attributes=["classes_"])
         probs = self.predict_proba(X)
+        if probs.shape[1] != len(self.classes_):
+            raise InvalidParameterError(
+                f"The model distinguishes {probs.shape[1]} classes, but {len(self.classes_)} labels were fitted."
+            )
         indices = np.argmax(probs, axis=1)
         return np.asarray(self.classes_)[indices]
-- 
2.43.0


From 8f2f7f322c965b2e167e0c8f5695fd92342aba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 58/98] fix: default learning-rate milestones no longer fall
 before the first epoch

---
 spflow/learn/gradient_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/learn/gradient_descent.py b/spflow/learn/gradient_descent.py
index 62bbaec..360a896 100644
--- a/spflow/learn/gradient_descent.py
+++ b/spflow/learn/gradient_descent.py
@@ -346,7 +346,7 @@ def train_gradient_descent(
 
     if scheduler is None:
         scheduler = torch.optim.lr_scheduler.MultiStepLR(
-            optimizer, milestones=[int(epochs * 0.5), int(epochs * 0.75)], gamma=0.1
+            optimizer, milestones=[max(1, int(epochs * 0.5)), max(1, int(epochs * 0.75))], gamma=0.1
         )
 
     # Initialize loss function based on task type
-- 
2.43.0


From 9408dc243ad40a7a2e023a24d054ea782326a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 59/98] fix: callback_epoch receives its own copy of the
 epoch's losses

---
 spflow/learn/gradient_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/learn/gradient_descent.py b/spflow/learn/gradient_descent.py
index 360a896..5d5b28b 100644
--- a/spflow/learn/gradient_descent.py
+++ b/spflow/learn/gradient_descent.py
@@ -381,7 +381,7 @@ def train_gradient_descent(
 
         # Epoch callback and logging
         if callback_epoch is not None:
-            callback_epoch(metrics.train_losses, epoch)
+            callback_epoch(list(metrics.train_losses), epoch)
 
         if verbose:
             logger.info(f"Epoch [{epoch}/{epochs}]: Loss: {loss.item()}")
-- 
2.43.0


From 451266d303673a52695c1a64e053b537d3e74dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:11 +0000
Subject: [PATCH 60/98] fix: training with an empty loader or empty validation
 loader no longer raises UnboundLocalError

---
 spflow/learn/gradient_descent.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spflow/learn/gradient_descent.py b/spflow/learn/gradient_descent.py
index 5d5b28b..316961a 100644
--- a/spflow/learn/gradient_descent.py
+++ b/spflow/learn/gradient_descent.py
@@ -253,7 +253,7 @@ def _run_validation_epoch(
     is_classification: bool,
     callback_batch: Callable[[Tensor, int], None] | None,
     nll_weight: float = 1.0,
-) -> Tensor:
+) -> Tensor | None:
     """Run validation epoch and return final validation loss.
 
     Args:
@@ -266,11 +266,11 @@ def _run_validation_epoch(
         nll_weight: Weight for the density estimation (NLL) term in classification tasks.
 
     Returns:
-        The final validation loss tensor from the last processed batch.
+        The final validation loss tensor from the last processed batch, or None if there was no batch.
     """
     # Set model to evaluation mode
     model.eval()
-    val_loss: Tensor
+    val_loss: Tensor | None = None
 
     # Validate without computing gradients
     with torch.no_grad():
@@ -353,6 +353,7 @@ def train_gradient_descent(
     if loss_fn is None:
         loss_fn = classification_loss if is_classification else negative_log_likelihood_loss
     metrics = TrainingMetrics()
+    loss: Tensor | None = None
 
     # Training loop
     for epoch in range(epochs):
@@ -375,7 +376,8 @@ def train_gradient_descent(
             val_loss = _run_validation_epoch(
                 model, validation_dataloader, loss_fn, metrics, is_classification, callback_batch, nll_weight
             )
-            logger.debug(f"Validation Loss: {val_loss.item()}")
+            if val_loss is not None:
+                logger.debug(f"Validation Loss: {val_loss.item()}")
             if is_classification:
                 logger.debug(f"Validation Accuracy: {metrics.get_val_accuracy():.2f}%")
 
@@ -384,4 +386,5 @@ def train_gradient_descent(
             callback_epoch(list(metrics.train_losses), epoch)
 
         if verbose:
-            logger.info(f"Epoch [{epoch}/{epochs}]: Loss: {loss.item()}")
+            loss_value = loss.item() if loss is not None else float("nan")
+            logger.info(f"Epoch [{epoch}/{epochs}]: Loss: {loss_value}")
-- 
2.43.0


From 7fd5e717f675afc987ddfe8f7ae6b082700bb3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 61/98] fix: signed sums report a feature scope for every
 repetition

---
 spflow/modules/sums/signed_sum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/signed_sum.py b/spflow/modules/sums/signed_sum.py
index 8b0e497..5f8a785 100644
--- a/spflow/modules/sums/signed_sum.py
+++ b/spflow/modules/sums/signed_sum.py
@@ -87,7 +87,11 @@ class SignedSum(Module):
 
     @property
     def feature_to_scope(self) -> np.ndarray:
-        return self.inputs.feature_to_scope
+        f2s = self.inputs.feature_to_scope
+        if f2s.shape[1] == 1 and self.out_shape.repetitions > 1:
+            # A single input repetition is shared by all repetitions of the sum.
+            f2s = np.repeat(f2s, self.out_shape.repetitions, axis=1)
+        return f2s
 
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, weights={self.weights_shape}"
-- 
2.43.0


From 20741466c239c53e5a26dd3db40d4bf667322295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 62/98] fix: monotone proposals of signed sums with several
 output channels can be built

---
 spflow/learn/build_socs.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spflow/learn/build_socs.py b/spflow/learn/build_socs.py
index 25d6708..d8affe4 100644
--- a/spflow/learn/build_socs.py
+++ b/spflow/learn/build_socs.py
@@ -124,12 +124,8 @@ def build_abs_weight_proposal(component: Module, *, eps: float = 1e-8) -> Module
         w = node.weights.detach()
         w = torch.abs(w) + w.new_tensor(float(eps))
         w = w / w.sum(dim=1, keepdim=True).clamp_min(1e-12)
-        return Sum(
-            inputs=node.inputs,
-            out_channels=node.out_shape.channels,
-            num_repetitions=node.out_shape.repetitions,
-            weights=w,
-        )
+        # the weights determine the number of channels and repetitions
+        return Sum(inputs=node.inputs, weights=w)
 
     def _is_signed_categorical(node: torch.nn.Module) -> bool:
         return (
-- 
2.43.0


From 253a9c085c3a42719f35b7d1cdd62ff5b3942b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 63/98] fix: sampling a sum of squares keeps the columns
 outside its scope

---
 spflow/modules/sos/socs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sos/socs.py b/spflow/modules/sos/socs.py
index 9c1064a..a24b801 100644
--- a/spflow/modules/sos/socs.py
+++ b/spflow/modules/sos/socs.py
@@ -272,6 +272,11 @@ class SOCS(Module):
         # Sample per-component with an independence MH kernel:
         # target π(x) ∝ c_i(x)^2, proposal q(x) from a monotone PC (either c_i itself or abs-weight proxy).
         out = data.clone()
+
+        def _propose(proposal: Module, num: int) -> Tensor:
+            # keep the layout of `data`, which may have more columns than the scope
+            return proposal.sample(data=data.new_full((num, data.shape[1]), float("nan")))
+
         for i, comp in enumerate(self.components):
             mask = comp_idx == i
             if not mask.any():
@@ -287,11 +292,11 @@ class SOCS(Module):
             else:
                 proposal = comp_mod
 
-            x = proposal.sample(num_samples=n_i)
+            x = _propose(proposal, n_i)
             log_q_x = _joint_ll(proposal, x)
             log_t_x = _log_target_signed(comp_mod, x)
             for _t in range(total_steps):
-                x_p = proposal.sample(num_samples=n_i)
+                x_p = _propose(proposal, n_i)
                 log_q_p = _joint_ll(proposal, x_p)
                 log_t_p = _log_target_signed(comp_mod, x_p)
 
-- 
2.43.0


From 7646b6bf04ca883883aca2928d151c666f8da5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 64/98] fix: squares models whose leaves and sums differ in
 units can be built

---
 spflow/zoo/sos/models.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/spflow/zoo/sos/models.py b/spflow/zoo/sos/models.py
index 82b8cfc..836cf89 100644
--- a/spflow/zoo/sos/models.py
+++ b/spflow/zoo/sos/models.py
@@ -186,10 +186,19 @@ def _instantiate_tree(node: _TreeNode, cfg: _CircuitConfig, *, generator: torch.
         return _make_leaf(node.scope, cfg, generator=generator)
 
     children = [_instantiate_tree(ch, cfg, generator=generator) for ch in node.children]
-    prod = Product(children)
+    if len({ch.out_shape.channels for ch in children}) > 1:
+        # siblings at different depths: bring the leaves to the number of sum units
+        children = [
+            _make_sum(ch, cfg, generator=generator) if ch.out_shape.channels != cfg.num_sum_units else ch
+            for ch in children
+        ]
+    return _make_sum(Product(children), cfg, generator=generator)
+
+
+def _make_sum(inputs: Module, cfg: _CircuitConfig, *, generator: torch.Generator) -> Module:
     if cfg.non_monotonic:
-        return _make_signed_sum(prod, out_channels=cfg.num_sum_units, cfg=cfg, generator=generator)
-    return Sum(inputs=prod, out_channels=cfg.num_sum_units, num_repetitions=prod.out_shape.repetitions)
+        return _make_signed_sum(inputs, out_channels=cfg.num_sum_units, cfg=cfg, generator=generator)
+    return Sum(inputs=inputs, out_channels=cfg.num_sum_units, num_repetitions=inputs.out_shape.repetitions)
 
 
 def _finalize_scalar(
-- 
2.43.0


From 79c9612dc2029009306b9c3fcce47fb5ea675ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 65/98] fix: inner products of Poisson leaves with large rates
 no longer overflow

---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 3550579..60d6716 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -198,8 +198,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         l1 = rearrange(a.rate.to(dtype=torch.float64), "f ci r -> f ci 1 r").clamp_min(0.0)
         l2 = rearrange(b.rate.to(dtype=torch.float64), "f co r -> f 1 co r").clamp_min(0.0)
         z = 2.0 * torch.sqrt((l1 * l2).clamp_min(0.0))
-        i0 = getattr(torch, "i0", torch.special.i0)
-        return torch.exp(-(l1 + l2)) * i0(z)
+        # scaled Bessel function: i0(z) itself overflows for large rates
+        return torch.exp(z - (l1 + l2)) * torch.special.i0e(z)
 
     if isinstance(a, Gamma) and isinstance(b, Gamma):
         a1 = rearrange(a.concentration.to(dtype=torch.float64), "f ci r -> f ci 1 r").clamp_min(1e-30)
-- 
2.43.0


From 88173713550e34407419927304fd1680594700f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 66/98] fix: products of leaves that list their variables in
 different orders are refused

---
 spflow/utils/inner_product_core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 60d6716..d8bb24d 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -58,6 +58,9 @@ def _leaf_event_shape_ok(a: LeafModule, b: LeafModule) -> None:
         raise ShapeError("Leaf features must match for inner product.")
     if a.out_shape.repetitions != b.out_shape.repetitions:
         raise ShapeError("Leaf repetitions must match for inner product.")
+    if a.scope.query != b.scope.query:
+        # scopes compare as sets, but leaf features are paired by position
+        raise ShapeError(f"Leaf scopes must list the same variables in the same order: {a.scope} vs {b.scope}.")
 
 
 def _binomial_logpmf(k: Tensor, n: Tensor, p: Tensor) -> Tensor:
@@ -663,6 +666,8 @@ def triple_product_tensor(
     )
 
     if a_is_leaf_like and b_is_leaf_like and c_is_leaf_like:
+        _leaf_event_shape_ok(cast(LeafModule, a), cast(LeafModule, b))
+        _leaf_event_shape_ok(cast(LeafModule, a), cast(LeafModule, c))
         # Handle a subset of leaf triples explicitly; otherwise reduce to finite sums/interval overlap where possible.
         if (
             _SignedCategorical is not None
-- 
2.43.0


From b7a1e782db4df45ca309da011f4fa4cde987763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 67/98] fix: memoised products are keyed by modules, not by
 reusable ids

---
 spflow/utils/inner_product_core.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index d8bb24d..18d417c 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -460,12 +460,12 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
     )
 
 
-def _get_pair_memo(cache: Cache, *, memo_key: str) -> dict[tuple[int, int], Tensor]:
+def _get_pair_memo(cache: Cache, *, memo_key: str) -> dict[tuple[Module, Module], Tensor]:
     memo = cache.extras.get(memo_key)
     if memo is None:
         memo = {}
         cache.extras[memo_key] = memo
-    return cast(dict[tuple[int, int], Tensor], memo)
+    return cast(dict[tuple[Module, Module], Tensor], memo)
 
 
 def inner_product_matrix(
@@ -478,11 +478,11 @@ def inner_product_matrix(
 ) -> Tensor:
     if cache is not None:
         memo = _get_pair_memo(cache, memo_key=memo_key)
-        key = (id(a), id(b))
+        key = (a, b)
         cached = memo.get(key)
         if cached is not None:
             return cached
-        rev = memo.get((id(b), id(a)))
+        rev = memo.get((b, a))
         if rev is not None:
             out = rearrange(rev, "f ci co r -> f co ci r").contiguous()
             memo[key] = out
@@ -509,7 +509,7 @@ def inner_product_matrix(
     if a_is_leaf_like and b_is_leaf_like:
         out = leaf_inner_product(a, b)
         if cache is not None:
-            memo[(id(a), id(b))] = out
+            memo[(a, b)] = out
         return out
 
     if isinstance(a, Cat) and isinstance(b, Cat):
@@ -527,7 +527,7 @@ def inner_product_matrix(
             ]
             out = torch.cat(parts, dim=0)
             if cache is not None:
-                memo[(id(a), id(b))] = out
+                memo[(a, b)] = out
             return out
 
         if a.dim == 2:
@@ -564,7 +564,7 @@ def inner_product_matrix(
                 a_off += a_ch
 
             if cache is not None:
-                memo[(id(a), id(b))] = out
+                memo[(a, b)] = out
             return out
 
         raise UnsupportedOperationError(f"inner_product does not support Cat(dim={a.dim}).")
@@ -575,7 +575,7 @@ def inner_product_matrix(
         )
         out = torch.prod(child_k, dim=0, keepdim=True)
         if cache is not None:
-            memo[(id(a), id(b))] = out
+            memo[(a, b)] = out
         return out
 
     sum_types = (Sum, *signed_sum_types)
@@ -587,7 +587,7 @@ def inner_product_matrix(
         wb = b.weights.to(dtype=torch.float64)  # type: ignore[attr-defined]
         out = torch.einsum("fiar,fijr,fjbr->fabr", wa, child_k, wb)
         if cache is not None:
-            memo[(id(a), id(b))] = out
+            memo[(a, b)] = out
         return out
 
     raise UnsupportedOperationError(
@@ -611,12 +611,12 @@ def log_self_inner_product_scalar(
     return torch.log(z.clamp_min(1e-30))
 
 
-def _get_triple_memo(cache: Cache, *, memo_key: str) -> dict[tuple[int, int, int], Tensor]:
+def _get_triple_memo(cache: Cache, *, memo_key: str) -> dict[tuple[Module, Module, Module], Tensor]:
     memo = cache.extras.get(memo_key)
     if memo is None:
         memo = {}
         cache.extras[memo_key] = memo
-    return cast(dict[tuple[int, int, int], Tensor], memo)
+    return cast(dict[tuple[Module, Module, Module], Tensor], memo)
 
 
 def triple_product_tensor(
@@ -630,11 +630,11 @@ def triple_product_tensor(
 ) -> Tensor:
     if cache is not None:
         memo = _get_triple_memo(cache, memo_key=memo_key)
-        key = (id(a), id(b), id(c))
+        key = (a, b, c)
         cached = memo.get(key)
         if cached is not None:
             return cached
-        swapped = memo.get((id(b), id(a), id(c)))
+        swapped = memo.get((b, a, c))
         if swapped is not None:
             out = rearrange(swapped, "f ci co cj r -> f co ci cj r").contiguous()
             memo[key] = out
-- 
2.43.0


From 85a587a9a623aaebed115b29d13e0130385ed94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 68/98] fix: inner products of histogram leaves over a single
 segment

---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 18d417c..c5e385b 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -338,8 +338,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         in2 = (mids >= edges2[0]) & (mids < edges2[-1])
         mask = (in1 & in2).to(dtype=torch.float64)
 
-        d1 = dens1.index_select(-1, idx1).squeeze(-1)  # (F,Ca,1,R,S)
-        d2 = dens2.index_select(-1, idx2).squeeze(-1)  # (F,1,Cb,R,S)
+        d1 = dens1.index_select(-1, idx1)  # (F,Ca,1,R,S)
+        d2 = dens2.index_select(-1, idx2)  # (F,1,Cb,R,S)
         prod = d1 * d2  # (F,Ca,Cb,R,S)
         out = torch.sum(prod * rearrange(seg_len * mask, "s -> 1 1 1 1 s"), dim=-1)
         return out
-- 
2.43.0


From 0cd7d13ad7396dee9b1f809349fd3459f7db7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 69/98] fix: structure learners keep the fixed parameters of
 the leaf templates

---
 spflow/learn/learn_spn.py  | 43 ++++++++++++++++++++++++++++++++------
 spflow/learn/prometheus.py |  7 ++-----
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 8323844..d811caf 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -12,6 +12,8 @@ from networkx import connected_components as ccnp, from_numpy_array
 
 from spflow.meta.data.scope import Scope
 from spflow.modules.module import Module
+from spflow.modules.leaves.cltree import CLTree
+from spflow.modules.leaves.histogram import Histogram
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.modules.ops.cat import Cat
 from spflow.modules.products import Product
@@ -80,6 +82,40 @@ def prune_sums(node):
                 prune_sums(child)
 
 
+def fit_leaf_like(template: LeafModule, scope: Scope, data: torch.Tensor) -> LeafModule:
+    """Fits a leaf of the template's family over (part of) the template's scope.
+
+    Parameters that are not estimated from data (number of categories, number of trials,
+    bounds, bin edges, ...) are taken over from the template.
+
+    Args:
+        template: Leaf module that determines the family and its fixed parameters.
+        scope: Variables of the new leaf; a subset of the template's scope.
+        data: Data to estimate the parameters from.
+
+    Returns:
+        LeafModule: The fitted leaf.
+    """
+    if isinstance(template, CLTree):
+        kwargs = {"out_channels": template.out_shape.channels, "K": template.K, "alpha": template.alpha}
+    elif template.is_conditional:
+        kwargs = {"out_channels": template.out_shape.channels}
+    else:
+        idxs = [template.scope.query.index(rv) for rv in scope.query]
+        kwargs = {
+            k: v.detach()[idxs][:, :, :1].clone()
+            for k, v in template.params().items()
+            if isinstance(v, torch.Tensor)
+        }
+        kwargs["out_channels"] = template.out_shape.channels
+        if isinstance(template, Histogram):
+            kwargs["bin_edges"] = template.bin_edges.detach().clone()
+
+    leaf = template.__class__(scope=scope, **kwargs).to(data.device)
+    leaf.maximum_likelihood_estimation(data)
+    return leaf
+
+
 def adapt_product_inputs(inputs: list[Module], leaf_oc, sum_oc) -> list[Module]:
     ref_oc = leaf_oc if leaf_oc > sum_oc else sum_oc
     output_modules = []
@@ -287,13 +323,8 @@ def learn_spn(
             leaf_scope = set(leaf_module.scope.query)
             scope_inter = s.intersection(leaf_scope)
             if len(scope_inter) > 0:
-                leaf_layer = leaf_module.__class__(
-                    scope=Scope(sorted(scope_inter)), out_channels=leaf_module.out_shape.channels
-                ).to(data.device)
                 # estimate leaves node parameters from data
-                leaf_layer.maximum_likelihood_estimation(data)
-
-                leaves.append(leaf_layer)
+                leaves.append(fit_leaf_like(leaf_module, Scope(sorted(scope_inter)), data))
 
         if len(scope.query) > 1:
             if len(leaves) == 1:
diff --git a/spflow/learn/prometheus.py b/spflow/learn/prometheus.py
index da6cae4..ac91466 100644
--- a/spflow/learn/prometheus.py
+++ b/spflow/learn/prometheus.py
@@ -29,6 +29,7 @@ from fast_pytorch_kmeans import KMeans
 from networkx import connected_components, from_numpy_array, maximum_spanning_tree
 
 from spflow.exceptions import InvalidParameterError, InvalidTypeError, UnsupportedOperationError
+from spflow.learn.learn_spn import fit_leaf_like
 from spflow.meta.data.scope import Scope
 from spflow.modules.module import Module
 from spflow.modules.leaves.leaf import LeafModule
@@ -323,11 +324,7 @@ def _create_partitioned_mv_leaf(
         if not intersection:
             continue
 
-        leaf = leaf_module.__class__(
-            scope=Scope(sorted(intersection)), out_channels=leaf_module.out_shape.channels
-        ).to(data.device)
-        leaf.maximum_likelihood_estimation(data)
-        leaves.append(leaf)
+        leaves.append(fit_leaf_like(leaf_module, Scope(sorted(intersection)), data))
 
     if not leaves:
         raise InvalidParameterError(
-- 
2.43.0


From 65a7e0ccc8cf166db50ac5f631ae132ebe5cff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 70/98] fix: learn_spn stops at slices that split neither way

---
 spflow/learn/learn_spn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index d811caf..9029b15 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -395,7 +395,8 @@ def learn_spn(
                         # Recurse for each label
                         #
                         # for each cluster, create a substructure
-                        for cluster_id in torch.unique(labels):
+                        cluster_ids = torch.unique(labels)
+                        for cluster_id in cluster_ids:
                             sub_structure = learn_spn(
                                 data[labels == cluster_id, :],
                                 leaf_modules=leaf_modules,
@@ -404,7 +405,10 @@ def learn_spn(
                                 clustering_method=clustering_method,
                                 partitioning_method=partitioning_method,
                                 min_features_slice=min_features_slice,
-                                min_instances_slice=min_instances_slice,
+                                # a single cluster is the same slice again: do not cluster it once more
+                                min_instances_slice=(
+                                    min_instances_slice if len(cluster_ids) > 1 else data.shape[0] + 1
+                                ),
                             )
                             inputs_per_channel.append(sub_structure)
 
-- 
2.43.0


From ec992318417cbdf16568707f28f79cb0c3de89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 71/98] fix: learn_spn accepts a single leaf module together
 with a scope

---
 spflow/learn/learn_spn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 9029b15..b20f465 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -266,7 +266,9 @@ def learn_spn(
                 scope = leaf_modules[0].scope
         else:
             scope = leaf_modules.scope
-            leaf_modules = [leaf_modules]
+
+    if not isinstance(leaf_modules, list):
+        leaf_modules = [leaf_modules]
 
     # Verify that all indices in scope are valid for the data
     # if len(scope.query) > 0 and max(scope.query) >= data.shape[1]:
-- 
2.43.0


From d0973f870939ec39e59670cc585cfbc76970d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 72/98] fix: cutset networks drop branches without data

---
 spflow/learn/cnet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index 8edc05a..7ca544c 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -248,6 +248,10 @@ def learn_cnet(
         if len(non_empty) == 1:
             return branches[non_empty[0][0]]
 
+        # Branches without data have weight zero and do not take part in the mixture
+        branches = [branches[i] for i, _ in non_empty]
+        weights_list = [w for _, w in non_empty]
+
         # Create Sum node over branches
         # Weight shape needs to account for each child's out_channels
         # Sum expects: (features, in_channels, out_channels, repetitions)
-- 
2.43.0


From 8d54b0a73b0b2caa79d9c9f159597f5b78385311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 73/98] fix: cutset networks fit single-row slices

---
 spflow/learn/cnet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index 7ca544c..74f532a 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -297,6 +297,12 @@ def _create_leaf(
     """Create a leaf node (CLTree or Categorical)."""
     n_features = len(scope.query)
 
+    if n_features >= 2 and data_slice.shape[0] == 1:
+        # A tree cannot be estimated from a single row
+        return Product(
+            [_create_leaf(data_slice, Scope([v]), cardinalities, out_channels, alpha) for v in scope.query]
+        )
+
     if n_features >= 2:
         # Use CLTree for multivariate scope
         K = max(cardinalities[v] for v in scope.query)
-- 
2.43.0


From ca5df8ffbd91e5216af19f92ef7631125bb6173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 74/98] fix: prune_sums preserves the distribution of sums with
 several output channels

---
 spflow/learn/learn_spn.py | 43 +++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index b20f465..6a776cd 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -37,31 +37,30 @@ def prune_sums(node):
     """
     if isinstance(node, Sum):
         child = node.inputs
-        new_children = []
-        new_weights = []
-        if isinstance(child, Cat):
-            # prune if all children of the cat module are sums
-            all_sums = all(isinstance(c, Sum) for c in child.inputs)
-            if all_sums:
-                for j, c in enumerate(child.inputs):
-                    new_children.append(c.inputs)
-                    new_weights.append(c.weights)
-        if len(new_children) != 0:
-            # if we have new children, we need to update the weights
-            current_weights = node.weights
+        # prune if all children of the channel-wise cat module are sums
+        if (
+            type(node) is Sum
+            and isinstance(child, Cat)
+            and child.dim == 2
+            and all(type(c) is Sum for c in child.inputs)
+        ):
+            # every child sum contributes its own weights, mixed over its output channels
+            new_children = []
             updated_weights = []
-            for i in range(len(new_weights)):
-                updated_weights.append(
-                    new_weights[i] * current_weights[:, i, :].unsqueeze(1),
-                )
+            channel = 0
+            for c in child.inputs:
+                current_weights = node.weights[:, channel : channel + c.out_shape.channels]
+                channel += c.out_shape.channels
+                updated_weights.append(torch.einsum("fimr,fmor->fior", c.weights, current_weights))
+                if isinstance(c.inputs, Cat) and c.inputs.dim == 2:
+                    # if cat(cat) -> cat
+                    new_children.extend(c.inputs.inputs)
+                else:
+                    new_children.append(c.inputs)
             updated_weights = torch.concatenate(updated_weights, dim=1)
 
-            all_cat = all(isinstance(c, Cat) for c in new_children)
-            if all_cat:
-                # if cat(cat) -> cat
-                node.inputs = Cat([input_elem for c in new_children for input_elem in c.inputs], dim=2)
-            else:
-                node.inputs = Cat(new_children, dim=2)
+            node.inputs = Cat(new_children, dim=2)
+            node.in_shape = node.inputs.out_shape
             node.weights_shape = updated_weights.shape
             node.weights = updated_weights
             # call prune on the same node to prune in case new double sums are formed
-- 
2.43.0


From cfeaf85ed611eadd6672b5c764254aca79121090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 75/98] fix: rdc of perfectly dependent columns

---
 spflow/utils/rdc.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spflow/utils/rdc.py b/spflow/utils/rdc.py
index cc8af52..f38ab08 100644
--- a/spflow/utils/rdc.py
+++ b/spflow/utils/rdc.py
@@ -86,6 +86,8 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
             # Check if imaginary parts are negligible (numerical precision issues)
             max_imag = torch.max(torch.abs(torch.imag(eigs)))
             if max_imag > 1e-8:
+                if ub <= lb:
+                    break
                 # Significant imaginary parts indicate numerical issues
                 ub -= 1
                 k = (ub + lb) // 2
@@ -100,6 +102,8 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
 
         # Binary search if k is too large
         if not eigenvals_valid:
+            if ub <= lb:
+                break
             ub -= 1
             k = (ub + lb) // 2
             continue
@@ -112,11 +116,10 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
         else:
             k = (ub + lb) // 2
 
-    # Return the square root of the maximum eigenvalue (using real part if complex)
-    if torch.is_complex(eigs):
-        return torch.sqrt(torch.max(torch.real(eigs)))
-    else:
-        return torch.sqrt(torch.max(eigs))
+    # Return the square root of the maximum eigenvalue (using real part if complex). It may be
+    # outside of [0, 1] by rounding if no number of projections gave valid eigenvalues.
+    eigs = torch.real(eigs) if torch.is_complex(eigs) else eigs
+    return torch.sqrt(torch.max(eigs).clamp(0.0, 1.0))
 
 
 def cca_loop(k, C):
-- 
2.43.0


From c629236723ee123b519180de1b9a76c0fec904e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 76/98] fix: Prometheus keeps the partitions of features
 without affinity

---
 spflow/learn/prometheus.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spflow/learn/prometheus.py b/spflow/learn/prometheus.py
index ac91466..8d1b7aa 100644
--- a/spflow/learn/prometheus.py
+++ b/spflow/learn/prometheus.py
@@ -26,7 +26,7 @@ import numpy as np
 import networkx as nx
 import torch
 from fast_pytorch_kmeans import KMeans
-from networkx import connected_components, from_numpy_array, maximum_spanning_tree
+from networkx import connected_components, maximum_spanning_tree
 
 from spflow.exceptions import InvalidParameterError, InvalidTypeError, UnsupportedOperationError
 from spflow.learn.learn_spn import fit_leaf_like
@@ -148,7 +148,11 @@ def _mst_partitions_from_affinity(affinity: torch.Tensor) -> list[list[list[int]
     if d <= 1:
         return []
 
-    graph = from_numpy_array(np.asarray(affinity.detach().cpu().numpy()))
+    # complete graph: features without any affinity are connected by edges of weight zero
+    weights = affinity.detach().cpu().numpy()
+    graph = nx.Graph()
+    graph.add_nodes_from(range(d))
+    graph.add_weighted_edges_from((i, j, float(weights[i, j])) for i, j in combinations(range(d), 2))
     tree = maximum_spanning_tree(graph, weight="weight")
 
     edges_sorted = sorted(tree.edges(data=True), key=lambda e: float(e[2].get("weight", 0.0)))
-- 
2.43.0


From 1e4ed651f4a081c368518d3cac4432d170111121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 77/98] fix: structure learners reject variables that no leaf
 module covers

---
 spflow/learn/learn_spn.py  | 3 +++
 spflow/learn/prometheus.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 6a776cd..9d9680b 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -327,6 +327,9 @@ def learn_spn(
                 # estimate leaves node parameters from data
                 leaves.append(fit_leaf_like(leaf_module, Scope(sorted(scope_inter)), data))
 
+        if s.difference(*(leaf.scope.query for leaf in leaves)):
+            raise ValueError(f"The leaf modules do not cover all of the variables {tuple(scope.query)}.")
+
         if len(scope.query) > 1:
             if len(leaves) == 1:
                 return Product(inputs=leaves[0])
diff --git a/spflow/learn/prometheus.py b/spflow/learn/prometheus.py
index 8d1b7aa..e04da20 100644
--- a/spflow/learn/prometheus.py
+++ b/spflow/learn/prometheus.py
@@ -330,7 +330,7 @@ def _create_partitioned_mv_leaf(
 
         leaves.append(fit_leaf_like(leaf_module, Scope(sorted(intersection)), data))
 
-    if not leaves:
+    if requested.difference(*(leaf.scope.query for leaf in leaves)):
         raise InvalidParameterError(
             f"No leaf module covers requested scope {tuple(scope.query)}. "
             f"Provide leaf_modules whose scopes cover all variables."
-- 
2.43.0


From fc8dee97c252b0cc9078819f38631543128dac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:16 +0000
Subject: [PATCH 78/98] fix: CLTree learns its structure from the columns of
 its scope order

---
 spflow/modules/leaves/cltree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index c03aa90..2b7382f 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -300,7 +300,10 @@ class CLTree(LeafModule):
             data: Tensor of shape (N, D) with values in {0..K-1} for this scope.
             sample_weights: Optional per-row weights (N,).
         """
-        scoped = self._resolve_scoped_data(data)
+        self._fit_structure_scoped(self._resolve_scoped_data(data), sample_weights=sample_weights)
+
+    def _fit_structure_scoped(self, scoped: Tensor, *, sample_weights: Tensor | None = None) -> None:
+        """Learn the structure from data whose columns already follow the scope order."""
         if torch.isnan(scoped).any():
             raise InvalidParameterError(
                 "fit_structure requires complete data without NaNs (use nan_strategy='ignore')."
@@ -439,7 +442,7 @@ class CLTree(LeafModule):
         # Learn structure once (shared across channels/repetitions).
         if not self._has_learned_structure():
             w_scalar = weights[:, 0].sum(dim=(1, 2)).detach()  # (N,)
-            self.fit_structure(data=scoped, sample_weights=w_scalar)
+            self._fit_structure_scoped(scoped, sample_weights=w_scalar)
 
         parents = self.parents.tolist()
         root = parents.index(-1)
-- 
2.43.0


From bea7feb39bcbc7972e5dbec7074ee1a4c28d6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 79/98] fix: k-best spanning trees of maximal weight

---
 spflow/zoo/hclt/topk_mst.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/spflow/zoo/hclt/topk_mst.py b/spflow/zoo/hclt/topk_mst.py
index d5ed65a..879e716 100644
--- a/spflow/zoo/hclt/topk_mst.py
+++ b/spflow/zoo/hclt/topk_mst.py
@@ -105,24 +105,26 @@ def mst_with_constraints(
         raise ShapeError("reuse must have the same shape as weights.")
 
     reuse[:, :] = weights
+    # The value that keeps an edge out of the optimal tree; its negation forces an edge in.
+    worst = np.inf if minimize else -np.inf
 
     n = int(weights.shape[0])
     if dropout_prob > 0.0:
         rng = rng or np.random.default_rng()
         mask = rng.random((n, n)) < dropout_prob
         mask = np.triu(mask, k=1)
-        reuse[mask] = np.inf
-        reuse[(mask.T)] = np.inf
+        reuse[mask] = worst
+        reuse[(mask.T)] = worst
 
     included = {_canon_edge(e) for e in included_edges}
     excluded = {_canon_edge(e) for e in excluded_edges}
 
     for a, b in included:
-        reuse[a, b] = -np.inf
-        reuse[b, a] = -np.inf
+        reuse[a, b] = -worst
+        reuse[b, a] = -worst
     for a, b in excluded:
-        reuse[a, b] = np.inf
-        reuse[b, a] = np.inf
+        reuse[a, b] = worst
+        reuse[b, a] = worst
 
     mst = kruskal_mst_complete(reuse, minimize=minimize)
     mst_set = set(mst)
@@ -174,8 +176,10 @@ def topk_mst(
     def key_for(mst_edges: list[Edge], included_edges: list[Edge], excluded_edges: list[Edge]) -> tuple:
         return (tuple(mst_edges), tuple(included_edges), tuple(excluded_edges))
 
+    # The heap pops the smallest total first, so totals to be maximized are negated.
+    order = 1.0 if minimize else -1.0
     heap: list[tuple[float, tuple, list[Edge], list[Edge], list[Edge]]] = []
-    heappush(heap, (float(total0), key_for(mst0, [], []), mst0, [], []))
+    heappush(heap, (order * float(total0), key_for(mst0, [], []), mst0, [], []))
 
     out: list[list[Edge]] = []
     while heap and len(out) < num_trees:
@@ -217,6 +221,6 @@ def topk_mst(
                 continue
             inc = list(included_edges)
             exc = list(excluded_edges)
-            heappush(heap, (float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
+            heappush(heap, (order * float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
 
     return out
-- 
2.43.0


From dd523db1c15663badaaab0a6be47aec8e3287784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:21 +0000
Subject: [PATCH 80/98] fix: k-best spanning trees of integer weights

---
 spflow/zoo/hclt/topk_mst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/zoo/hclt/topk_mst.py b/spflow/zoo/hclt/topk_mst.py
index 879e716..431ba45 100644
--- a/spflow/zoo/hclt/topk_mst.py
+++ b/spflow/zoo/hclt/topk_mst.py
@@ -157,7 +157,7 @@ def topk_mst(
     if weights.ndim != 2 or weights.shape[0] != weights.shape[1]:
         raise ShapeError(f"weights must be square (N,N), got {weights.shape}.")
 
-    reuse = np.empty_like(weights)
+    reuse = np.empty_like(weights, dtype=np.result_type(weights, np.float64))
 
     mst0, total0 = mst_with_constraints(
         weights,
-- 
2.43.0


From 0dce7dcb88a9c6e664e2bc0459536655dc6083e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:44 +0000
Subject: [PATCH 81/98] fix: randomly initialised HCLTs keep one channel per
 hidden category

---
 spflow/zoo/hclt/learn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/hclt/learn.py b/spflow/zoo/hclt/learn.py
index 0a45733..3c5bbbf 100644
--- a/spflow/zoo/hclt/learn.py
+++ b/spflow/zoo/hclt/learn.py
@@ -67,7 +67,11 @@ def _build_hclt_from_tree(
                 continue
             child_sub = build_subtree(ch, node)
             weights = None if init != "uniform" else uniform_sum_weights(num_hidden_cats, num_hidden_cats)
-            trans = Sum(inputs=child_sub) if weights is None else Sum(inputs=child_sub, weights=weights)
+            trans = (
+                Sum(inputs=child_sub, out_channels=num_hidden_cats)
+                if weights is None
+                else Sum(inputs=child_sub, weights=weights)
+            )
             child_msgs.append(trans)
 
         if not child_msgs:
-- 
2.43.0


From b03414302c14a562db34f96e086d988d2f2560df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 82/98] fix: CLTree does not evaluate cyclic parents

---
 spflow/modules/leaves/cltree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 2b7382f..40360d3 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -238,7 +238,8 @@ class CLTree(LeafModule):
                 continue
             if p < 0 or p >= len(parents) or p == i:
                 return False
-        return True
+        # A cycle beside the root is no tree: its variables are not reachable from the root.
+        return len(_compute_orders_from_parents(parents).pre_order) == len(parents)
 
     def _resolve_scoped_data(self, data: Tensor) -> Tensor:
         if data.dim() != 2:
-- 
2.43.0


From 09d188c7649b9730b022c0e2fc34c7313cefcf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 83/98] fix: structure statistics and displays descend into
 every composite module

---
 spflow/utils/module_display.py  | 37 ++++++++++++++++++++++++++++-----
 spflow/utils/structure_stats.py | 14 ++++++++-----
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/spflow/utils/module_display.py b/spflow/utils/module_display.py
index e2db66f..df867e4 100644
--- a/spflow/utils/module_display.py
+++ b/spflow/utils/module_display.py
@@ -8,6 +8,7 @@ The Module class includes a to_str() method that uses this utility internally.
 
 from __future__ import annotations
 
+from collections.abc import Iterator
 from typing import Optional, Any
 
 from spflow.modules.module import Module
@@ -189,6 +190,11 @@ def _get_module_children(module: Module) -> list[tuple[str, Module]]:
     """
     children = []
 
+    # Wrappers hold the wrapped module
+    wrapped = getattr(module, "module", None)
+    if isinstance(wrapped, Module):
+        children.append(("module", wrapped))
+
     # Check for input attribute (unified for all modules now)
     if hasattr(module, "inputs") and module.inputs is not None:
         inputs = module.inputs
@@ -231,15 +237,36 @@ def _get_module_children(module: Module) -> list[tuple[str, Module]]:
             else:
                 children.append(("inputs", inputs))
 
-    # Check for root_node attribute (RAT-SPN modules)
-    if module.__class__.__name__ == "RatSPN":
-        root_node = module.root_node
-        if root_node is not None and isinstance(root_node, Module):
-            children.append(("root_node", root_node))
+    # Check for root_node attribute (composite models such as RatSPN, Einet and NaiveBayes)
+    root_node = getattr(module, "root_node", None)
+    if isinstance(root_node, Module):
+        children.append(("root_node", root_node))
+
+    # Remaining containers only register their submodules (e.g. SOCS.components)
+    if not children:
+        children.extend(iter_registered_children(module))
 
     return children
 
 
+def iter_registered_children(module: Module) -> Iterator[tuple[str, Module]]:
+    """Yield the SPFlow modules registered on a module, expanding ModuleLists.
+
+    Args:
+        module: The parent module to get children from.
+
+    Yields:
+        Tuples of attribute name and child module, in registration order.
+    """
+    for name, child in module.named_children():
+        if isinstance(child, Module):
+            yield name, child
+        elif child.__class__.__name__ == "ModuleList":
+            for i, element in enumerate(child):
+                if isinstance(element, Module):
+                    yield f"{name}[{i}]", element
+
+
 def _format_scope(scope: Any) -> str:
     """Format scope information as readable string.
 
diff --git a/spflow/utils/structure_stats.py b/spflow/utils/structure_stats.py
index d8ae6a2..eed97aa 100644
--- a/spflow/utils/structure_stats.py
+++ b/spflow/utils/structure_stats.py
@@ -13,6 +13,7 @@ import torch
 
 from spflow.exceptions import StructureError
 from spflow.modules.module import Module
+from spflow.utils.module_display import iter_registered_children
 
 
 @dataclass(frozen=True, slots=True)
@@ -88,7 +89,8 @@ def _iter_structure_children(module: Module) -> list[Module]:
     - Skips ``Cat`` wrappers by yielding their inputs directly.
     - Expands ``nn.ModuleList`` inputs into individual child modules.
     - Includes wrapped modules via the ``Wrapper.module`` attribute.
-    - Includes ``RatSPN.root_node`` as a child.
+    - Includes ``root_node`` of composite models (RatSPN, Einet, NaiveBayes) as a child.
+    - Falls back to the registered submodules (e.g. ``SOCS.components``).
 
     Args:
         module: Module whose children should be returned.
@@ -129,10 +131,12 @@ def _iter_structure_children(module: Module) -> list[Module]:
             else:
                 children.append(inputs)
 
-    if module.__class__.__name__ == "RatSPN":
-        root_node = getattr(module, "root_node", None)
-        if isinstance(root_node, Module):
-            children.append(root_node)
+    root_node = getattr(module, "root_node", None)
+    if isinstance(root_node, Module):
+        children.append(root_node)
+
+    if not children:
+        children.extend(child for _, child in iter_registered_children(module))
 
     return children
 
-- 
2.43.0


From 7a2a314d4b5d6d776ed22bf05495a3a6f3b7262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:49 +0000
Subject: [PATCH 84/98] fix: structure statistics count parameters without
 storage

---
 spflow/utils/structure_stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/utils/structure_stats.py b/spflow/utils/structure_stats.py
index eed97aa..3093052 100644
--- a/spflow/utils/structure_stats.py
+++ b/spflow/utils/structure_stats.py
@@ -77,7 +77,10 @@ def _tensor_identity(tensor: torch.Tensor) -> tuple[object, ...]:
     """
     try:
         device_index = tensor.device.index if tensor.device.index is not None else -1
-        return (tensor.device.type, device_index, int(tensor.data_ptr()))
+        data_ptr = int(tensor.data_ptr())
+        if data_ptr == 0:  # no storage (meta device, empty tensor): only the object tells tensors apart
+            return ("id", id(tensor))
+        return (tensor.device.type, device_index, data_ptr)
     except Exception:
         return ("id", id(tensor))
 
-- 
2.43.0


From 322bf2e7d386485c997c1f452424780d69f94e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 85/98] fix: replace restores static and class methods

---
 spflow/utils/replace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spflow/utils/replace.py b/spflow/utils/replace.py
index f060486..e969eba 100644
--- a/spflow/utils/replace.py
+++ b/spflow/utils/replace.py
@@ -72,6 +72,11 @@ def replace(method_ref: Callable, replacement_func: Callable):
     else:
         new_method = replacement_func
 
+    # Keep the class attribute itself: looking a static or class method up unwraps it
+    original_attribute = inspect.getattr_static(target_class, method_name)
+    if isinstance(original_attribute, (staticmethod, classmethod)):
+        new_method = type(original_attribute)(new_method)
+
     # Replace the method on the class
     setattr(target_class, method_name, new_method)
 
@@ -79,7 +84,7 @@ def replace(method_ref: Callable, replacement_func: Callable):
         yield
     finally:
         # Restore the original method
-        setattr(target_class, method_name, original_method)
+        setattr(target_class, method_name, original_attribute)
 
 
 def _extract_class_and_name(method_ref: Callable) -> tuple[type, str]:
-- 
2.43.0


From 55b2ee9b72e7441639589202aafacbaf390b298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 86/98] fix: replaced cached methods keep their cache entry

---
 spflow/utils/replace.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spflow/utils/replace.py b/spflow/utils/replace.py
index e969eba..bb5bbbb 100644
--- a/spflow/utils/replace.py
+++ b/spflow/utils/replace.py
@@ -6,6 +6,7 @@ decorators like @cached. Useful for testing, debugging, and experimentation.
 
 from __future__ import annotations
 
+import functools
 import inspect
 from contextlib import contextmanager
 from typing import Callable, TypeVar
@@ -68,7 +69,13 @@ def replace(method_ref: Callable, replacement_func: Callable):
         # Import here to avoid circular imports
         from spflow.utils.cache import cached
 
-        new_method = cached(replacement_func)
+        # Cached results are looked up by method name, so the replacement has to keep it.
+        @functools.wraps(replacement_func)
+        def renamed(*args, **kwargs):
+            return replacement_func(*args, **kwargs)
+
+        renamed.__name__ = method_name
+        new_method = cached(renamed)
     else:
         new_method = replacement_func
 
-- 
2.43.0


From 34e8735be156549597e2b17e1a7709b910ae3854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 87/98] fix: visualisations descend into every composite module

---
 spflow/utils/visualization.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spflow/utils/visualization.py b/spflow/utils/visualization.py
index decc7e8..89124ae 100644
--- a/spflow/utils/visualization.py
+++ b/spflow/utils/visualization.py
@@ -36,6 +36,7 @@ from spflow.modules.ops.split import Split
 from spflow.modules.ops.split_by_index import SplitByIndex
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.modules.ops.split_interleaved import SplitInterleaved
+from spflow.utils.module_display import iter_registered_children
 
 
 class Color(str, Enum):
@@ -390,10 +391,14 @@ def _build_graph(
                 edge = pydot.Edge(str(child_id), str(node_id))
                 graph.add_edge(edge)
 
-    # Special handling for RatSPN: traverse through root_node
-    if hasattr(module, "root_node"):
+    # Wrapped modules, composite models (root_node) and containers without inputs (e.g. SOCS)
+    others = [getattr(module, "module", None), getattr(module, "root_node", None)]
+    others = [other for other in others if isinstance(other, Module)]
+    if not others and getattr(module, "inputs", None) is None:
+        others = [child for _, child in iter_registered_children(module)]
+    for other in others:
         child_id = _build_graph(
-            module.root_node,
+            other,
             graph,
             show_scope,
             show_shape,
-- 
2.43.0


From 5f01097ceb8242ba68abcd5d740f429155505086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:43 +0000
Subject: [PATCH 88/98] fix: Factorize.marginalize drops groups left without
 variables in every repetition

---
 spflow/modules/rat/factorize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index e5db445..14d7e75 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -319,7 +319,8 @@ class Factorize(BaseProduct):
         gone = set(marg_rvs)
         keep_in = [any(set(s.query) - gone for s in row) for row in self.inputs[0].feature_to_scope]
         indices = self.indices[torch.tensor(keep_in, device=self.indices.device)]
-        indices = indices[:, (indices > 0).any(dim=2).any(dim=0)]
+        keep_out = [any(set(s.query) - gone for s in row) for row in self.feature_to_scope]
+        indices = indices[:, torch.tensor(keep_out, device=self.indices.device)]
 
         # Prune: if child and factorization have only one feature, it is redundant - return child directly
         if (
-- 
2.43.0


From b76e0bcc89eedaba4916e62b26362ab821175df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:44 +0000
Subject: [PATCH 89/98] fix: sample without data gives every variable its own
 column when parts of a circuit disagree on the columns

---
 spflow/modules/module.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/module.py b/spflow/modules/module.py
index 9dc8490..9bea13e 100644
--- a/spflow/modules/module.py
+++ b/spflow/modules/module.py
@@ -168,7 +168,15 @@ class Module(nn.Module, ABC):
         if data is None:
             if num_samples is None:
                 num_samples = 1
-            data = torch.full((num_samples, len(self.scope.query)), float("nan")).to(self.device)
+            query = self.scope.query
+            num_columns = len(query)
+            # One column per scope variable only works if all parts of the circuit agree on the columns;
+            # otherwise variables live in the columns with their own index.
+            if num_columns > 0 and max(query) >= num_columns:
+                parts = (m for m in self.modules() if isinstance(m, Module))
+                if any(list(m.scope.query) != list(query) for m in parts):
+                    num_columns = max(query) + 1
+            data = torch.full((num_samples, num_columns), float("nan")).to(self.device)
 
         return data
 
@@ -221,7 +229,10 @@ class Module(nn.Module, ABC):
 
         Returns:
             Sampled values of shape (batch_size, num_features), optionally with
-            collected leaf-parameter records.
+            collected leaf-parameter records. If no data is given and the variables of
+            the circuit are not ``0..num_features-1``, variable ``i`` is returned in
+            column ``i`` and all other columns are NaN (modules whose parts all share
+            one scope return one column per scope variable instead).
 
         Raises:
             ValueError: If sampling parameters are incompatible.
-- 
2.43.0


From 9c7447237c47448e1137add6e2c15aa86ec0d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:53 +0000
Subject: [PATCH 90/98] fix: Normal and LogNormal keep the parameters of
 components without weighted observations

---
 spflow/modules/leaves/log_normal.py | 5 +++++
 spflow/modules/leaves/normal.py     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/spflow/modules/leaves/log_normal.py b/spflow/modules/leaves/log_normal.py
index b1e561c..4423159 100644
--- a/spflow/modules/leaves/log_normal.py
+++ b/spflow/modules/leaves/log_normal.py
@@ -114,6 +114,11 @@ class LogNormal(LeafModule):
         # Handle edge cases (NaN, zero, or near-zero std) before broadcasting
         scale_est = _handle_mle_edge_cases(scale_est, lb=0.0)
 
+        # Components without any weighted observation keep their parameters (there is nothing to estimate from)
+        observed = n_total > 0
+        loc_est = torch.where(observed, loc_est, self.loc.detach())
+        scale_est = torch.where(observed, scale_est, self.scale.detach())
+
         return {"loc": loc_est, "scale": scale_est}
 
     def _set_mle_parameters(self, params_dict: dict[str, Tensor]) -> None:
diff --git a/spflow/modules/leaves/normal.py b/spflow/modules/leaves/normal.py
index 331ccf7..e259453 100644
--- a/spflow/modules/leaves/normal.py
+++ b/spflow/modules/leaves/normal.py
@@ -105,6 +105,11 @@ class Normal(LeafModule):
         # Handle edge cases (NaN, zero, or near-zero std)
         scale_est = _handle_mle_edge_cases(scale_est, lb=0.0)
 
+        # Components without any weighted observation keep their parameters (there is nothing to estimate from)
+        observed = n_total > 0
+        loc_est = torch.where(observed, loc_est, self.loc.detach())
+        scale_est = torch.where(observed, scale_est, self.scale.detach())
+
         return {"loc": loc_est, "scale": scale_est}
 
     def _set_mle_parameters(self, params_dict: dict[str, Tensor]) -> None:
-- 
2.43.0


From 11f0817163ec68bb6e678c6b54d1b56b48fc66ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:10 +0000
Subject: [PATCH 91/98] fix: leaf-parameter records of unconditional leaves
 never mistake the feature axis for the batch axis

---
 spflow/modules/leaves/leaf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index fe2c8bb..8375bb9 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -816,7 +816,14 @@ class LeafModule(Module, ABC):
         num_channels = self.out_shape.channels
         num_repetitions = self.out_shape.repetitions
 
-        if param.dim() >= 4 and param.shape[0] == n_active and param.shape[1] == num_features:
+        # Only conditional leaves have one set of parameters per row.
+        is_batched = (
+            self.is_conditional
+            and param.dim() >= 4
+            and param.shape[0] == n_active
+            and param.shape[1] == num_features
+        )
+        if is_batched:
             routed = param
         elif param.shape[0] == num_features:
             if param.dim() == 3:
-- 
2.43.0


From 9fd2603629dd3560e326745ca2926855dae3e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:51 +0000
Subject: [PATCH 92/98] fix: interval evidence on conditional leaves is refused
 instead of answered from unused parameters

---
 spflow/modules/leaves/leaf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 8375bb9..fe6b141 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -424,6 +424,10 @@ class LeafModule(Module, ABC):
         """
         # Dispatch on IntervalEvidence
         if isinstance(data, IntervalEvidence):
+            if self.is_conditional:
+                raise NotImplementedError(
+                    f"Interval inference not supported for conditional leaf {self.__class__.__name__}."
+                )
             return self._log_likelihood_interval(data.low, data.high, cache)
 
         if data.dim() != 2:
-- 
2.43.0


From d62411663b72779ca4c266ef77510b3a55bbbd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:43 +0000
Subject: [PATCH 93/98] fix: ProdConv keeps the evidence variables of its input
 in its scope

---
 spflow/modules/conv/prod_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 6297102..fdc229e 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -121,7 +121,7 @@ class ProdConv(Module):
         all_rvs = set()
         for scope in input_scopes.flatten():
             all_rvs.update(scope.query)
-        self.scope = Scope(sorted(all_rvs))
+        self.scope = Scope(sorted(all_rvs), evidence=list(self.inputs.scope.evidence))
 
     @property
     def feature_to_scope(self) -> np.ndarray:
-- 
2.43.0


From e25800492146c294b9df1767980966a5d074c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:11 +0000
Subject: [PATCH 94/98] fix: hypergeometric sampling draws every entry from its
 own population and number of draws

---
 spflow/modules/leaves/hypergeometric.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/spflow/modules/leaves/hypergeometric.py b/spflow/modules/leaves/hypergeometric.py
index 5e473f9..d0ad965 100644
--- a/spflow/modules/leaves/hypergeometric.py
+++ b/spflow/modules/leaves/hypergeometric.py
@@ -169,10 +169,11 @@ class _HypergeometricDistribution:
         sample_shape = n_samples + self.event_shape
         data = torch.zeros(sample_shape, device=self.K.device)
 
-        # Generate random indices for each sample, scope, and leaves
-        rand_indices = torch.argsort(
-            torch.rand(*sample_shape, self.N.max().to(torch.int32).item(), device=self.K.device), dim=-1
-        )
+        # Generate random indices for each sample, scope, and leaves; an entry only draws from its own population
+        population = torch.arange(self.N.max().to(torch.int32).item(), device=self.K.device)
+        rand_keys = torch.rand(*sample_shape, population.shape[0], device=self.K.device)
+        rand_keys = rand_keys.masked_fill(population >= rearrange(self.N, "... -> ... 1"), float("inf"))
+        rand_indices = torch.argsort(rand_keys, dim=-1)
 
         # Use broadcasting to create masks where draws are of interest
         expanded_k_shape = (*n_samples, *self.K.shape)
@@ -183,8 +184,8 @@ class _HypergeometricDistribution:
         # Create a mask for the "drawn" indices, considering the first K indices as objects of interest
         drawn_mask = rand_indices < rearrange(K_expanded, "... -> ... 1")
 
-        # Count the "drawn" indices for each sample, within the first 'n' draws
-        n_drawn = drawn_mask[..., : n_expanded.max().to(torch.int32).item()].sum(dim=-1)
+        # Count the "drawn" indices for each sample, within the first 'n' draws of each entry
+        n_drawn = (drawn_mask & (population < rearrange(n_expanded, "... -> ... 1"))).sum(dim=-1)
 
         # Adjust the shape of n_drawn to match the desired sample shape
         n_drawn_shape_adjusted = n_drawn[..., : self.n.shape[-1]]
-- 
2.43.0


From ce3b152a2e38392a93b3d44ad4273605d04eca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:34 +0000
Subject: [PATCH 95/98] fix: image views left by a marginalization use the
 columns of their variables

---
 spflow/modules/wrapper/image_wrapper.py | 36 ++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/wrapper/image_wrapper.py b/spflow/modules/wrapper/image_wrapper.py
index 04c181c..6ab244f 100644
--- a/spflow/modules/wrapper/image_wrapper.py
+++ b/spflow/modules/wrapper/image_wrapper.py
@@ -79,6 +79,28 @@ class ImageWrapper(Wrapper):
                 f"{height * width * num_channel}."
             )
 
+    def _to_columns(self, flat: Tensor) -> Tensor:
+        """Place flattened pixels in the columns of their variables.
+
+        The variables left by a marginalization keep their indices, so the columns of removed
+        variables are present (as missing values) in the data of the wrapped module.
+        """
+        columns = sorted(self.scope.query)
+        if columns == list(range(len(columns))):
+            return flat
+        if not flat.is_floating_point():
+            flat = flat.to(torch.get_default_dtype())
+        data = flat.new_full((flat.shape[0], max(columns) + 1), float("nan"))
+        data[:, columns] = flat
+        return data
+
+    def _from_columns(self, data: Tensor) -> Tensor:
+        """Select the flattened pixels from the columns of their variables."""
+        columns = sorted(self.scope.query)
+        if columns == list(range(len(columns))):
+            return data
+        return data[:, columns]
+
     def flatten(self, tensor: torch.Tensor):
         """Convert 4D image tensor to 2D flattened tensor.
 
@@ -168,7 +190,7 @@ class ImageWrapper(Wrapper):
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
 
-        data = self.flatten(data)
+        data = self._to_columns(self.flatten(data))
         self.module._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
 
     @cached
@@ -200,7 +222,7 @@ class ImageWrapper(Wrapper):
             raise ShapeError(
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
-        data = self.flatten(data)
+        data = self._to_columns(self.flatten(data))
 
         log_prob = self.module.log_likelihood(data, cache=cache)
 
@@ -278,14 +300,14 @@ class ImageWrapper(Wrapper):
         )
 
         # Flatten data to 2D for processing
-        flat_data = self.flatten(data)
+        flat_data = self._to_columns(self.flatten(data))
 
         self.module._sample(
             data=flat_data,
             cache=cache,
             sampling_ctx=sampling_ctx,
         )
-        image = self.to_image_format(flat_data)
+        image = self.to_image_format(self._from_columns(flat_data))
         if return_leaf_params:
             return image, sampling_ctx.leaf_param_records()
         return image
@@ -296,13 +318,13 @@ class ImageWrapper(Wrapper):
         sampling_ctx: SamplingContext,
         cache: Cache,
     ) -> Tensor:
-        flat_data = self.flatten(data)
+        flat_data = self._to_columns(self.flatten(data))
         self.module._sample(
             data=flat_data,
             cache=cache,
             sampling_ctx=sampling_ctx,
         )
-        return self.to_image_format(flat_data)
+        return self.to_image_format(self._from_columns(flat_data))
 
     def marginalize(
         self,
@@ -323,7 +345,7 @@ class ImageWrapper(Wrapper):
         """
 
         marg_rvs = []
-        scope = torch.as_tensor(self.scope.query, dtype=torch.long)
+        scope = torch.as_tensor(sorted(self.scope.query), dtype=torch.long)
 
         scope = self.to_image_format(scope, batch=False)
 
-- 
2.43.0


From 813b29140a198813f72a126703d19366227a736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:05 +0000
Subject: [PATCH 96/98] fix: compiled Chow-Liu mixtures choose one tree per
 sample

---
 spflow/zoo/cms/continuous_mixtures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spflow/zoo/cms/continuous_mixtures.py b/spflow/zoo/cms/continuous_mixtures.py
index afe2d32..ca75779 100644
--- a/spflow/zoo/cms/continuous_mixtures.py
+++ b/spflow/zoo/cms/continuous_mixtures.py
@@ -889,14 +889,17 @@ def _compile_cltree(
             parents=parents,
             log_cpt=log_cpt_i,
         )
-        components.append(node)
+        # The mixture is over whole trees: one joint feature, hence one component choice per row.
+        components.append(Product(inputs=node))
 
     w_sum = _make_sum_weights(
         num_components=I,
-        num_features=F,
+        num_features=components[0].out_shape.features,
         device=z.device,
         dtype=z.dtype,
     )
-    w_sum = _broadcast_component_weights(weights=weights.to(device=z.device, dtype=z.dtype), num_features=F)
+    w_sum = _broadcast_component_weights(
+        weights=weights.to(device=z.device, dtype=z.dtype), num_features=w_sum.shape[0]
+    )
     mix = Sum(inputs=components, weights=w_sum)
     return JointLogLikelihood(mix)
-- 
2.43.0


From a6371211aa9109c8273cea47ee3935ad161cac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:05 +0000
Subject: [PATCH 97/98] fix: continuous mixtures reject malformed validation
 rows

---
 spflow/zoo/cms/continuous_mixtures.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spflow/zoo/cms/continuous_mixtures.py b/spflow/zoo/cms/continuous_mixtures.py
index ca75779..e0b6421 100644
--- a/spflow/zoo/cms/continuous_mixtures.py
+++ b/spflow/zoo/cms/continuous_mixtures.py
@@ -276,6 +276,8 @@ def learn_continuous_mixture_factorized(
 
     data = _to_device_dtype(data, device=device, dtype=dtype)
     if val_data is not None:
+        if val_data.dim() != 2 or val_data.shape[1] != data.shape[1]:
+            raise InvalidParameterError("val_data must be 2D with as many features as data.")
         val_data = _to_device_dtype(val_data, device=device, dtype=dtype)
 
     N, F = int(data.shape[0]), int(data.shape[1])
@@ -615,6 +617,8 @@ def learn_continuous_mixture_cltree(
     num_points_eval = int(num_points_train if num_points_eval is None else num_points_eval)
     data = _to_device_dtype(data, device=device, dtype=dtype)
     if val_data is not None:
+        if val_data.dim() != 2 or val_data.shape[1] != data.shape[1]:
+            raise InvalidParameterError("val_data must be 2D with as many features as data.")
         val_data = _to_device_dtype(val_data, device=device, dtype=dtype)
 
     N, F = int(data.shape[0]), int(data.shape[1])
@@ -626,6 +630,11 @@ def learn_continuous_mixture_cltree(
         raise InvalidParameterError("num_cats must be provided and >= 2 for categorical.")
     if (data < 0).any() or (data >= K).any():
         raise InvalidParameterError(f"CLTree data must be in {{0,..,{K - 1}}}.")
+    if val_data is not None:
+        if torch.isnan(val_data).any() or not torch.allclose(val_data, val_data.round()):
+            raise InvalidParameterError("CLTree val_data must be complete and integer-coded.")
+        if (val_data < 0).any() or (val_data >= K).any():
+            raise InvalidParameterError(f"CLTree val_data must be in {{0,..,{K - 1}}}.")
 
     # Learn the Chow–Liu structure once.
     tmp = CLTree(scope=Scope(list(range(F))), out_channels=1, num_repetitions=1, K=K)
-- 
2.43.0


From 8b8cd095a51594eeb6032c9016822df8566bfe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:20 +0000
Subject: [PATCH 98/98] fix: marginalising sums keeps weights that underflow in
 linear space

---
 spflow/modules/sums/elementwise_sum.py        | 10 +++++++--
 .../modules/sums/repetition_mixing_layer.py   | 21 ++++++++++++-------
 spflow/modules/sums/sum.py                    | 15 +++++++------
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 4a00e6d..3521f4b 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -253,7 +253,7 @@ class ElementwiseSum(Module):
         marg_input = None
 
         mutual_rvs = set(module_scope.query).intersection(set(marg_rvs))
-        module_weights = self.weights
+        module_weights = self.log_weights
 
         # module scope is being fully marginalized over
         if len(mutual_rvs) == len(module_scope.query):
@@ -288,7 +288,13 @@ class ElementwiseSum(Module):
             return None
 
         else:
-            return ElementwiseSum(inputs=[inp for inp in marg_input], weights=module_weights)
+            # Weights that underflow in linear space are carried over as log weights.
+            tiny = torch.finfo(module_weights.dtype).tiny
+            marg_sum = ElementwiseSum(
+                inputs=[inp for inp in marg_input], weights=module_weights.exp().clamp_min(tiny)
+            )
+            marg_sum.log_weights = module_weights
+            return marg_sum
 
     def _sample(
         self,
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index e799582..f06504f 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -201,14 +201,19 @@ class RepetitionMixingLayer(Sum):
         mutual_rvs = set(self.scope.query).intersection(set(marg_rvs))
         if len(mutual_rvs) == len(self.scope.query):
             return None
-        if not mutual_rvs:
-            return RepetitionMixingLayer(inputs=self.inputs, weights=self.weights)
-
-        marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
-        if marg_input is None:
-            return None
-        mask = [not set(scope.query) <= mutual_rvs for scope in self.inputs.feature_to_scope[:, 0]]
-        return RepetitionMixingLayer(inputs=marg_input, weights=self.weights[mask])
+        marg_input, log_weights = self.inputs, self.log_weights
+        if mutual_rvs:
+            marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
+            if marg_input is None:
+                return None
+            mask = [not set(scope.query) <= mutual_rvs for scope in self.inputs.feature_to_scope[:, 0]]
+            log_weights = log_weights[mask]
+
+        # Weights that underflow in linear space are carried over as log weights.
+        tiny = torch.finfo(log_weights.dtype).tiny
+        marg_layer = RepetitionMixingLayer(inputs=marg_input, weights=log_weights.exp().clamp_min(tiny))
+        marg_layer.log_weights = log_weights
+        return marg_layer
 
     @cached
     def log_likelihood(
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index f3f0c51..b5b2a26 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -469,7 +469,7 @@ class Sum(Module):
         marg_input = None
 
         mutual_rvs = set(module_scope.query).intersection(set(marg_rvs))
-        module_weights = self.weights
+        module_weights = self.log_weights
 
         # module scope is being fully marginalized over
         if len(mutual_rvs) == len(module_scope.query):
@@ -517,10 +517,9 @@ class Sum(Module):
                     padded_list = []
                     for w in masked_weights_list:
                         if w.shape[0] < max_features:
-                            padding = torch.zeros(
-                                max_features - w.shape[0],
-                                w.shape[1],
-                                w.shape[2],
+                            padding = torch.full(
+                                (max_features - w.shape[0], w.shape[1], w.shape[2]),
+                                float("-inf"),
                                 device=w.device,
                                 dtype=w.dtype,
                             )
@@ -535,4 +534,8 @@ class Sum(Module):
             return None
 
         else:
-            return Sum(inputs=marg_input, weights=module_weights)
+            # Weights that underflow in linear space are carried over as log weights.
+            tiny = torch.finfo(module_weights.dtype).tiny
+            marg_sum = Sum(inputs=marg_input, weights=module_weights.exp().clamp_min(tiny))
+            marg_sum.log_weights = module_weights
+            return marg_sum
-- 
2.43.0

