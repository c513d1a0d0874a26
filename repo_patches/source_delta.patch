From 19953166a0bd4e4667d4b796e429336087029a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 01/35] fix: ElementwiseSum.marginalize masks weights by
 feature, not by variable

---
 spflow/modules/sums/elementwise_sum.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 6b587dd..11a4ed2 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -269,10 +269,17 @@ class ElementwiseSum(Module):
 
             # if marginalized input is not None
             if marg_input:
-                indices = [self.scope.query.index(el) for el in list(mutual_rvs)]
-                mask = torch.ones(len(module_scope.query), device=module_weights.device, dtype=torch.bool)
-                mask[indices] = False
-                module_weights = module_weights[mask]
+                # keep the weights of every feature that still has unmarginalized variables
+                feature_to_scope = self.feature_to_scope
+                masked_weights = []
+                for r in range(module_weights.shape[-1]):
+                    mask = torch.tensor(
+                        [not mutual_rvs.issuperset(scope.query) for scope in feature_to_scope[:, r]],
+                        device=module_weights.device,
+                        dtype=torch.bool,
+                    )
+                    masked_weights.append(module_weights[..., r][mask])
+                module_weights = torch.stack(masked_weights, dim=-1)
 
         else:
             marg_input = self.inputs
-- 
2.43.0


From ec3c94f070b3288f0ce956fdfcc91d64c667df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 02/35] fix: RepetitionMixingLayer normalizes over repetitions
 from construction on and marginalizes its own weights

---
 .../modules/sums/repetition_mixing_layer.py   | 42 ++++++++++++++++++-
 spflow/modules/sums/sum.py                    |  4 +-
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 2a58ee3..d5fba28 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -19,6 +19,9 @@ class RepetitionMixingLayer(Sum):
     Extends Sum with RAT-SPN specific optimizations.
     """
 
+    # Weights are normalized over the repetition axis of (features, channels, repetitions).
+    sum_dim = 2
+
     def __init__(
         self,
         inputs: Module,
@@ -39,8 +42,6 @@ class RepetitionMixingLayer(Sum):
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
 
-        self.sum_dim = 2
-
     @property
     def feature_to_scope(self) -> np.ndarray:
         return self.inputs.feature_to_scope
@@ -165,6 +166,43 @@ class RepetitionMixingLayer(Sum):
 
         return data
 
+    def marginalize(
+        self,
+        marg_rvs: list[int],
+        prune: bool = True,
+        cache: Cache | None = None,
+    ) -> RepetitionMixingLayer | None:
+        """Marginalize out specified random variables.
+
+        Args:
+            marg_rvs: List of random variables to marginalize.
+            prune: Whether to prune the module.
+            cache: Optional cache dictionary.
+
+        Returns:
+            Marginalized RepetitionMixingLayer or None if fully marginalized.
+        """
+        marginalized = set(marg_rvs)
+        if marginalized.issuperset(self.scope.query):
+            return None
+
+        marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
+        if marg_input is None:
+            return None
+
+        # keep the weights of every feature that still has unmarginalized variables
+        weights = self.weights
+        feature_to_scope = self.inputs.feature_to_scope
+        masked_weights = []
+        for r in range(weights.shape[-1]):
+            mask = torch.tensor(
+                [not marginalized.issuperset(scope.query) for scope in feature_to_scope[:, r]],
+                device=weights.device,
+                dtype=torch.bool,
+            )
+            masked_weights.append(weights[..., r][mask])
+        return RepetitionMixingLayer(inputs=marg_input, weights=torch.stack(masked_weights, dim=-1))
+
     @cached
     def log_likelihood(
         self,
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index b8934b2..fb902de 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -43,6 +43,9 @@ class Sum(Module):
         logits (Parameter): Unnormalized log-weights for gradient optimization.
     """
 
+    # Axis of the weight tensor (features, in_channels, out_channels, repetitions) that is mixed over.
+    sum_dim = 1
+
     def __init__(
         self,
         inputs: Module | list[Module],
@@ -105,7 +108,6 @@ class Sum(Module):
         else:
             self.inputs = inputs
 
-        self.sum_dim = 1
         self.scope = self.inputs.scope
 
         # ========== 5. SHAPE COMPUTATION (early, so shapes can be reused below) ==========
-- 
2.43.0


From 5e4bf017ae0b22d84dcf083077085c7ee35cfa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 03/35] fix: EinsumLayer and LinsumLayer keep their weights
 when marginalizing two surviving inputs

---
 spflow/modules/einsum/einsum_layer.py | 27 +++++++++++++++++++++++++++
 spflow/modules/einsum/linsum_layer.py | 27 +++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index f348048..0f609c2 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -636,6 +636,32 @@ class EinsumLayer(Module):
                 data, bias_correction=bias_correction, cache=cache
             )
 
+    def _surviving_weights(self, left: Module, right: Module, marg_rvs: list[int]) -> Tensor | None:
+        """Return the weights of the feature pairs that survive marginalization.
+
+        Args:
+            left: Left input module before marginalization.
+            right: Right input module before marginalization.
+            marg_rvs: Random variable indices to marginalize.
+
+        Returns:
+            Weights of the surviving pairs, or None if some pair loses only one of its sides, in which
+            case the remaining features are paired differently and the weights do not apply.
+        """
+        weights = self.weights.detach()
+        marginalized = set(marg_rvs)
+        surviving = []
+        for r in range(weights.shape[2]):
+            keep_left, keep_right = (
+                [not marginalized.issuperset(scope.query) for scope in side.feature_to_scope[:, r]]
+                for side in (left, right)
+            )
+            if keep_left != keep_right:
+                return None
+            mask = torch.tensor(keep_left, device=weights.device, dtype=torch.bool)
+            surviving.append(weights[:, :, r][mask])
+        return torch.stack(surviving, dim=2)
+
     def marginalize(
         self,
         marg_rvs: list[int],
@@ -680,6 +706,7 @@ class EinsumLayer(Module):
                     inputs=[left_marg, right_marg],
                     out_channels=self.out_shape.channels,
                     num_repetitions=self.out_shape.repetitions,
+                    weights=self._surviving_weights(*self.inputs, marg_rvs=marg_rvs),
                 )
         else:
             # Single input - marginalize the underlying input
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 01b925a..b2b8c0e 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -496,6 +496,32 @@ class LinsumLayer(Module):
                 data, bias_correction=bias_correction, cache=cache
             )
 
+    def _surviving_weights(self, left: Module, right: Module, marg_rvs: list[int]) -> Tensor | None:
+        """Return the weights of the feature pairs that survive marginalization.
+
+        Args:
+            left: Left input module before marginalization.
+            right: Right input module before marginalization.
+            marg_rvs: Random variable indices to marginalize.
+
+        Returns:
+            Weights of the surviving pairs, or None if some pair loses only one of its sides, in which
+            case the remaining features are paired differently and the weights do not apply.
+        """
+        weights = self.weights.detach()
+        marginalized = set(marg_rvs)
+        surviving = []
+        for r in range(weights.shape[2]):
+            keep_left, keep_right = (
+                [not marginalized.issuperset(scope.query) for scope in side.feature_to_scope[:, r]]
+                for side in (left, right)
+            )
+            if keep_left != keep_right:
+                return None
+            mask = torch.tensor(keep_left, device=weights.device, dtype=torch.bool)
+            surviving.append(weights[:, :, r][mask])
+        return torch.stack(surviving, dim=2)
+
     def marginalize(
         self,
         marg_rvs: list[int],
@@ -540,6 +566,7 @@ class LinsumLayer(Module):
                     inputs=[left_marg, right_marg],
                     out_channels=self.out_shape.channels,
                     num_repetitions=self.out_shape.repetitions,
+                    weights=self._surviving_weights(*self.inputs, marg_rvs=marg_rvs),
                 )
         else:
             # Single input - marginalize the underlying input
-- 
2.43.0


From bbe818f779feed8e2bbfa58dfde00e91dd4c74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 04/35] fix: RepetitionMixingLayer samples the repetition from
 the requested channel, not from the sum over channels

---
 spflow/modules/sums/repetition_mixing_layer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index d5fba28..54f942f 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,7 +9,12 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
-from spflow.utils.sampling_context import SamplingContext, sample_from_logits
+from spflow.utils.sampling_context import (
+    SamplingContext,
+    index_tensor,
+    repeat_channel_index,
+    sample_from_logits,
+)
 
 
 class RepetitionMixingLayer(Sum):
@@ -137,7 +142,13 @@ class RepetitionMixingLayer(Sum):
             log_posterior = log_posterior.log_softmax(dim=3)
             logits = log_posterior
 
-        rep_logits = logits.sum(-2)
+        # Select the requested output channel; the repetition is drawn from its weights only.
+        c_idxs = repeat_channel_index(
+            sampling_ctx.channel_index,
+            "b f co -> b f co r",
+            r=int(logits.shape[-1]),
+        )
+        rep_logits = index_tensor(logits, index=c_idxs, dim=2, is_differentiable=sampling_ctx.is_differentiable)
         rep_samples = sample_from_logits(
             logits=rep_logits,
             dim=-1,
-- 
2.43.0


From 06e4324be12eb693da3f5ff8403494fa694a5629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 05/35] fix: Hypergeometric sampling respects each cell's own
 K, N and n

---
 spflow/modules/leaves/hypergeometric.py | 35 ++++++++-----------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/spflow/modules/leaves/hypergeometric.py b/spflow/modules/leaves/hypergeometric.py
index d663452..f312a97 100644
--- a/spflow/modules/leaves/hypergeometric.py
+++ b/spflow/modules/leaves/hypergeometric.py
@@ -165,32 +165,19 @@ class _HypergeometricDistribution:
         if not isinstance(n_samples, tuple):
             n_samples = (n_samples,)
 
-        # Prepare the tensor to store the samples
         sample_shape = n_samples + self.event_shape
-        data = torch.zeros(sample_shape, device=self.K.device)
 
-        # Generate random indices for each sample, scope, and leaves
-        rand_indices = torch.argsort(
-            torch.rand(*sample_shape, self.N.max().to(torch.int32).item(), device=self.K.device), dim=-1
-        )
-
-        # Use broadcasting to create masks where draws are of interest
-        expanded_k_shape = (*n_samples, *self.K.shape)
-        expanded_n_shape = (*n_samples, *self.n.shape)
-        K_expanded = torch.broadcast_to(rearrange(self.K, "... -> 1 ..."), expanded_k_shape)
-        n_expanded = torch.broadcast_to(rearrange(self.n, "... -> 1 ..."), expanded_n_shape)
-
-        # Create a mask for the "drawn" indices, considering the first K indices as objects of interest
-        drawn_mask = rand_indices < rearrange(K_expanded, "... -> ... 1")
-
-        # Count the "drawn" indices for each sample, within the first 'n' draws
-        n_drawn = drawn_mask[..., : n_expanded.max().to(torch.int32).item()].sum(dim=-1)
-
-        # Adjust the shape of n_drawn to match the desired sample shape
-        n_drawn_shape_adjusted = n_drawn[..., : self.n.shape[-1]]
-
-        # Ensure the counts do not exceed the limits defined by n and K for each scope and leaves
-        data = torch.where(n_drawn_shape_adjusted < n_expanded, n_drawn_shape_adjusted, n_expanded)
+        # Draw a random order of the population items of every cell. The population is padded to the largest
+        # N; padding items (index >= N) sort last, so they are never among the first n draws.
+        item = torch.arange(int(self.N.max().item()), device=self.K.device)
+        keys = torch.rand(*sample_shape, item.shape[0], device=self.K.device)
+        keys = torch.where(item < rearrange(self.N, "... -> ... 1"), keys, 2.0)
+        rand_indices = torch.argsort(keys, dim=-1)
+
+        # The first K items of a population are the objects of interest; only the first n draws count.
+        is_success = rand_indices < rearrange(self.K, "... -> ... 1")
+        is_drawn = item < rearrange(self.n, "... -> ... 1")
+        data = (is_success & is_drawn).sum(dim=-1).to(self.n.dtype)
 
         return data
 
-- 
2.43.0


From 7b2517834dce5ad10d152ec634b4c4a210c71826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 06/35] fix: sample(num_samples=...) allocates columns up to
 the largest scope variable

---
 spflow/modules/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/module.py b/spflow/modules/module.py
index 9dc8490..0cca551 100644
--- a/spflow/modules/module.py
+++ b/spflow/modules/module.py
@@ -168,7 +168,9 @@ class Module(nn.Module, ABC):
         if data is None:
             if num_samples is None:
                 num_samples = 1
-            data = torch.full((num_samples, len(self.scope.query)), float("nan")).to(self.device)
+            # columns are addressed by variable id, so the table must reach the largest variable of the scope
+            num_columns = max(self.scope.query, default=-1) + 1
+            data = torch.full((num_samples, num_columns), float("nan")).to(self.device)
 
         return data
 
-- 
2.43.0


From 4f1b5341b971da45f022bf0ef7d131ebf526a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 07/35] fix: RatSPN and Einet sample the root class from its
 posterior when evidence is cached

---
 spflow/zoo/einet/einet.py | 5 +++++
 spflow/zoo/rat/rat_spn.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 5605810..3fd5cc0 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -454,6 +454,11 @@ class Einet(Module, Classifier):
             logits = rearrange(logits, "1 co 1 -> 1 1 co")
             logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)
 
+            # With evidence (cached log-likelihoods), the class follows its posterior instead of its prior.
+            class_lls = cache.get("log_likelihood", self.root_node.inputs)
+            if class_lls is not None:
+                logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
+
             if sampling_ctx.is_mpe:
                 sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
             else:
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index 21c08b4..09dba82 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -302,6 +302,11 @@ class RatSPN(Module, Classifier):
             logits = rearrange(logits, "1 co 1 -> 1 1 co")
             logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)  # shape [b, 1, n_root_nodes]
 
+            # With evidence (cached log-likelihoods), the class follows its posterior instead of its prior.
+            class_lls = cache.get("log_likelihood", self.root_node.inputs)
+            if class_lls is not None:
+                logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
+
             if sampling_ctx.is_mpe:
                 sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
             else:
-- 
2.43.0


From d54eff2bae90abc52f83e403ae02a74d636da73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 08/35] fix: interval evidence below the support of
 Exponential, Gamma and LogNormal leaves counts from the support's left end

---
 spflow/modules/leaves/leaf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 185229b..5055624 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -528,6 +528,12 @@ class LeafModule(Module, ABC):
             high_expanded,
         )
 
+        # Bounds below the support (including a missing lower bound) act like its left end
+        support_low = getattr(getattr(dist, "support", None), "lower_bound", None)
+        if support_low is not None:
+            low_for_cdf = torch.clamp(low_for_cdf, min=support_low)
+            high_for_cdf = torch.clamp(high_for_cdf, min=support_low)
+
         # Compute CDF values
         try:
             cdf_high = dist.cdf(high_for_cdf)
-- 
2.43.0


From 4baff627dc973cf096fda0514214001cda4ca0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 09/35] fix: Scope turns array and tensor elements into
 integers

---
 spflow/meta/data/scope.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index 71cfe0e..537a636 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -50,16 +50,23 @@ class Scope:
         if evidence is None:
             evidence = []
 
+        # Array elements (e.g. 0-d tensors) neither compare nor hash like integers
+        if hasattr(query, "tolist"):
+            query = query.tolist()
+
+        if hasattr(evidence, "tolist"):
+            evidence = evidence.tolist()
+
         if isinstance(query, int):
             query = [query]
         elif not isinstance(query, (list, tuple)):
-            # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
+            # Handle other iterables like ranges, sets, generators, etc.
             query = list(query)
 
         if isinstance(evidence, int):
             evidence = [evidence]
         elif not isinstance(evidence, (list, tuple)):
-            # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
+            # Handle other iterables like ranges, sets, generators, etc.
             evidence = list(evidence)
 
         if len(query) == 0 and len(evidence) != 0:
-- 
2.43.0


From 3ebbc4eeb55f4006c1e03206dd97d905067215e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 10/35] fix: Scope hash agrees with order-insensitive equality

---
 spflow/meta/data/scope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index 537a636..fe697d5 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -125,6 +125,10 @@ class Scope:
         """
         return self.equal_query(other) and self.equal_evidence(other)
 
+    def __hash__(self) -> int:
+        """Hash consistent with equality, i.e. independent of the order of the RVs."""
+        return hash((frozenset(self.query), frozenset(self.evidence)))
+
     def __len__(self) -> int:
         """Returns the number of query variables in the scope.
 
-- 
2.43.0


From a8e46e2ea8672b2d4d57902496eb7044156c59f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 11/35] fix: OuterProduct over a split reports scopes instead
 of arrays of scopes

---
 spflow/modules/products/outer_product.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 9544c37..7a18b10 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -148,10 +148,9 @@ class OuterProduct(BaseProduct):
     def feature_to_scope(self) -> list[Scope]:
         out = []
         for r in range(self.out_shape.repetitions):
-            if isinstance(self.inputs, Split):
-                scope_lists_r = self.inputs.feature_to_scope[
-                    ..., r
-                ]  # Shape: (num_features_per_split, num_splits)
+            if isinstance(self.inputs, Split) or self.input_is_split:
+                split = self.inputs if isinstance(self.inputs, Split) else self.inputs[0]
+                scope_lists_r = split.feature_to_scope[..., r]  # Shape: (num_features_per_split, num_splits)
                 scope_lists_r = [scope_lists_r[:, i] for i in range(self.num_splits)]
             else:
                 scope_lists_r = [
-- 
2.43.0


From 2e548e4d11c36ccf18564fc438f68eff95d4f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 12/35] fix: impute missing entries per cell when leaf supports
 differ between channels

---
 spflow/modules/leaves/leaf.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 5055624..696deaf 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -451,6 +451,14 @@ class LeafModule(Module, ABC):
         # event_shape is always [features, out_channels, num_repetitions].
         data_q = rearrange(data_q, "b f -> b f 1 1")
 
+        # The imputed value must be supported by every cell: supports may differ between channels/repetitions
+        if has_marginalizations:
+            cell_values = self._supported_value
+            if isinstance(cell_values, Tensor) and tuple(cell_values.shape) == tuple(self.event_shape):
+                data_q = torch.where(
+                    rearrange(marg_mask, "b f -> b f 1 1"), cell_values.to(data_q).unsqueeze(0), data_q
+                )
+
         if self.is_conditional:
             # Get evidence
             data_e = data[:, self.scope.evidence].to(device=self.device)
@@ -469,11 +477,6 @@ class LeafModule(Module, ABC):
             marg_mask_for_log_prob = torch.broadcast_to(marg_mask_for_log_prob, log_prob.shape)
             log_prob[marg_mask_for_log_prob] = 0.0
 
-        # Set marginalized scope data back to NaNs
-        if has_marginalizations:
-            marg_mask_for_data = rearrange(marg_mask, "b f -> b f 1 1")
-            data_q[marg_mask_for_data] = torch.nan
-
         return log_prob
 
     def _log_likelihood_interval(
-- 
2.43.0


From 87e7b9911f6abb208d978ad5e0c27d71391f43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 13/35] fix: leave-one-out weight of evidence is NaN for
 entries that are missing

---
 spflow/measures/weight_of_evidence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/weight_of_evidence.py b/spflow/measures/weight_of_evidence.py
index 98c5b48..bdacede 100644
--- a/spflow/measures/weight_of_evidence.py
+++ b/spflow/measures/weight_of_evidence.py
@@ -203,7 +203,7 @@ def weight_of_evidence_leave_one_out(
             repetition_agg=repetition_agg,
         )
 
-        out[:, j] = w
+        out[:, j] = torch.where(score_mask[:, j], w, out[:, j])
 
     return out
 
-- 
2.43.0


From 90ea29a24e4cb07f25210232378a47f44ee9f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 14/35] fix: Hypergeometric accepts values supported by any of
 its channels

---
 spflow/modules/leaves/hypergeometric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/hypergeometric.py b/spflow/modules/leaves/hypergeometric.py
index f312a97..d09ff23 100644
--- a/spflow/modules/leaves/hypergeometric.py
+++ b/spflow/modules/leaves/hypergeometric.py
@@ -84,7 +84,10 @@ class _HypergeometricDistribution:
         range_mask = (data_expanded >= min_successes_expanded) & (data_expanded <= max_successes_expanded)
         support_mask = integer_mask & range_mask
 
-        # Reduce the mask back to original data shape
+        # A value is accepted if at least one channel/repetition supports it (the other cells get -inf),
+        # so reduce the cell axes back to the original data shape
+        if support_mask.dim() == 4:
+            support_mask = support_mask.any(dim=-1, keepdim=True).any(dim=-2, keepdim=True)
         for _ in range(num_added_dims):
             support_mask = support_mask[..., 0]
 
-- 
2.43.0


From f4bcccd0a5c7fda08ce84149a7e9e1dca8e57692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 15/35] fix: EinsumLayer returns -inf instead of NaN when an
 input is impossible under every channel

---
 spflow/modules/einsum/einsum_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 0f609c2..23b47bb 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -369,10 +369,13 @@ class EinsumLayer(Module):
         positive-space probabilities using the bandwidth-aware schedule selected
         above, and the removed maxima are added back after ``log``.
         """
+        # An all-impossible input (-inf under every channel) has no finite maximum to subtract.
         left_max = left_ll.amax(dim=2, keepdim=True)
+        left_max = left_max.masked_fill(torch.isneginf(left_max), 0.0)
         left_prob = torch.exp(left_ll - left_max)
 
         right_max = right_ll.amax(dim=2, keepdim=True)
+        right_max = right_max.masked_fill(torch.isneginf(right_max), 0.0)
         right_prob = torch.exp(right_ll - right_max)
 
         weights = self._normalized_weights()
-- 
2.43.0


From ce53aff14add5b0e590f0828617fbb14f1598ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 16/35] fix: Factorize keeps an impossible input (-inf) inside
 its own group instead of producing NaN

---
 spflow/modules/rat/factorize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index 652d802..efe8f1c 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -162,8 +162,11 @@ class Factorize(BaseProduct):
             cache=cache,
         )  # lls[0] shape: [batch_size, num_features, num_channel, num_repetitions]
 
-        output = torch.einsum("bicr, ior->bocr", lls[0], self.indices)
-        return output
+        # An impossible input (-inf) must only affect the group it belongs to: -inf * 0 would be NaN.
+        impossible = torch.isneginf(lls[0])
+        output = torch.einsum("bicr, ior->bocr", lls[0].masked_fill(impossible, 0.0), self.indices)
+        blocked = torch.einsum("bicr, ior->bocr", impossible.to(self.indices.dtype), self.indices) > 0
+        return output.masked_fill(blocked, float("-inf"))
 
     def _sample(
         self,
-- 
2.43.0


From decadc0b1ba89ada8c94b01ae8749a9a726d31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:18 +0000
Subject: [PATCH 17/35] fix: Bernoulli mode is a support value for p = 0.5
 instead of NaN

---
 spflow/modules/leaves/bernoulli.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index cd21076..0c02af5 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -89,7 +89,7 @@ class Bernoulli(LeafModule):
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Bernoulli]:
-        return torch.distributions.Bernoulli
+        return _Bernoulli
 
     @property
     def _torch_distribution_class_with_differentiable_sampling(
@@ -194,7 +194,16 @@ class Bernoulli(LeafModule):
         return torch.log(torch.clamp(total_prob, min=1e-40))
 
 
-class BernoulliWithDifferentiableSampling(torch.distributions.Bernoulli):
+class _Bernoulli(torch.distributions.Bernoulli):
+    """Bernoulli distribution whose mode is always a value of its support."""
+
+    @property
+    def mode(self) -> Tensor:
+        """Most probable value (torch returns NaN for p = 0.5, where both values are most probable)."""
+        return (self.probs >= 0.5).to(self.probs)
+
+
+class BernoulliWithDifferentiableSampling(_Bernoulli):
     """Bernoulli distribution class that supports differentiable sampling via RelaxedBernoulli."""
 
     def sample(self, sample_shape=torch.Size()):
-- 
2.43.0


From b0149fde68530d909d7d792d57ddc4feff55734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 18/35] fix: mpe(data=evidence) takes the evidence likelihood
 into account when choosing branches

---
 spflow/modules/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/modules/module.py b/spflow/modules/module.py
index 0cca551..c6532a1 100644
--- a/spflow/modules/module.py
+++ b/spflow/modules/module.py
@@ -288,6 +288,11 @@ class Module(nn.Module, ABC):
         Raises:
             ValueError: If sampling parameters are incompatible.
         """
+        if data is not None and cache is None and not torch.isnan(data[:, list(self.scope.query)]).all():
+            # the maximising branches depend on the likelihood of the observed entries
+            cache = Cache()
+            self.log_likelihood(data, cache=cache)
+
         return self.sample(
             num_samples=num_samples,
             data=data,
-- 
2.43.0


From c3719696f7ba07ea18730577daf63720d657926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 19/35] fix: exact entropy addresses data columns by variable
 index (gapped scopes raised IndexError)

---
 spflow/measures/information_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/information_theory.py b/spflow/measures/information_theory.py
index 140e409..ed0264f 100644
--- a/spflow/measures/information_theory.py
+++ b/spflow/measures/information_theory.py
@@ -58,7 +58,7 @@ def entropy(
         if grid.dim() == 1:
             grid = grid.unsqueeze(1)
 
-        d = len(model.scope.query)
+        d = max(model.scope.query) + 1  # columns are addressed by variable index
         data = torch.full((grid.shape[0], d), torch.nan, device=model.device, dtype=torch.get_default_dtype())
         for j, rv in enumerate(rvs):
             data[:, rv] = grid[:, j]
-- 
2.43.0


From ef62d50168a5bf706d7e48e6317386b15396d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 20/35] fix: normalise MLE weights per parameter cell, not over
 all features/channels/repetitions (bias-corrected estimates were wrong)

---
 spflow/modules/leaves/leaf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 696deaf..74feee9 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -582,7 +582,10 @@ class LeafModule(Module, ABC):
             )
 
         # Step 2: Apply NaN strategy (drop/impute)
-        scoped_data, normalized_weights = apply_nan_strategy(nan_strategy, scoped_data, self.device, weights)
+        scoped_data, weights = apply_nan_strategy(nan_strategy, scoped_data, self.device, weights)
+
+        # Step 3: Every parameter cell is estimated on its own: its weights sum to the number of samples
+        normalized_weights = weights * (scoped_data.shape[0] / weights.sum(dim=0, keepdim=True))
 
         return scoped_data, normalized_weights
 
-- 
2.43.0


From d0342fc13d339de789ebaaf9ed7cbf0c3dc9fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:29 +0000
Subject: [PATCH 21/35] fix: Bernoulli MLE on all-ones data keeps probs below
 one (infinite logits made the log-likelihood NaN)

---
 spflow/modules/leaves/bernoulli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index 0c02af5..4b20839 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -121,8 +121,8 @@ class Bernoulli(LeafModule):
         n_success = (weights * data).sum(dim=0)
         p_est = n_success / n_total
 
-        # Handle edge cases (NaN, zero, or near-zero p) before broadcasting
-        p_est = _handle_mle_edge_cases(p_est, lb=0.0)
+        # Handle edge cases (NaN, zero, or one p) before broadcasting
+        p_est = _handle_mle_edge_cases(p_est, lb=0.0, ub=1.0)
 
         return {"probs": p_est}
 
-- 
2.43.0


From 82a77a6afd3629b98796840120246dc3a8e9d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 22/35] fix: Laplace MLE uses the weighted median for loc
 (sample weights were ignored)

---
 spflow/modules/leaves/laplace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/laplace.py b/spflow/modules/leaves/laplace.py
index 404340e..4134b11 100644
--- a/spflow/modules/leaves/laplace.py
+++ b/spflow/modules/leaves/laplace.py
@@ -97,7 +97,12 @@ class Laplace(LeafModule):
         n_total = weights.sum(dim=0)
 
         # ---- 1. Correct Laplace MLE for loc: weighted median ----
-        loc_est = torch.median(data, dim=0).values
+        # smallest data value at which the cumulative weight reaches half of the total
+        sorted_data, order = torch.sort(data.expand_as(weights), dim=0)
+        cum_weights = torch.cumsum(torch.gather(weights, 0, order), dim=0)
+        reached = cum_weights >= 0.5 * n_total * (1.0 - 1e-6)
+        median_idx = reached.to(torch.long).argmax(dim=0, keepdim=True)
+        loc_est = torch.gather(sorted_data, 0, median_idx).squeeze(0)
 
         # ---- 2. Correct Laplace MLE for scale ----
         abs_dev = torch.abs(data - loc_est)
-- 
2.43.0


From efe3f981fa7d1e4d501c2557f87dffbac06bad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 23/35] fix: SumConv EM updates every kernel position from its
 own expected counts (positions were tied, likelihood could drop)

---
 spflow/modules/conv/sum_conv.py | 38 +++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 46018a7..fb1f91c 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -482,17 +482,21 @@ class SumConv(Module):
             else:
                 log_grads = torch.log(module_lls_grad + 1e-10)
 
-            # Current log weights: (out_c, in_c, k, k, reps)
-            # Average over kernel spatial dims for simplicity
-            log_weights = self.log_weights.mean(dim=(2, 3))  # (out_c, in_c, reps)
+            # Kernel position that produced each feature (row-major spatial order). Inputs smaller than
+            # the kernel only use position [0, 0], see log_likelihood.
+            k = self.kernel_size
+            num_features = input_lls.shape[1]
+            side = int(num_features**0.5)
+            feature_idx = torch.arange(num_features, device=input_lls.device)
+            row, col = feature_idx // side, feature_idx % side
+            kh_idx, kw_idx = (row % k, col % k) if side >= k else (row * 0, col * 0)
 
             # Reshape for broadcasting:
-            # log_weights: (1, 1, out_c, in_c, reps)
+            # log_weights: (1, features, out_c, in_c, reps)
             # log_grads: (batch, features, out_c, 1, reps)
             # input_lls: (batch, features, 1, in_c, reps)
             # module_lls: (batch, features, out_c, 1, reps)
-
-            log_weights = rearrange(log_weights, "co ci r -> 1 1 co ci r")
+            log_weights = rearrange(self.log_weights[:, :, kh_idx, kw_idx, :], "co ci f r -> 1 f co ci r")
             log_grads = rearrange(log_grads, "b f co r -> b f co 1 r")
             input_lls = rearrange(input_lls, "b f ci r -> b f 1 ci r")
             module_lls = rearrange(module_lls, "b f co r -> b f co 1 r")
@@ -502,20 +506,18 @@ class SumConv(Module):
             log_expectations = log_weights + log_grads + input_lls - module_lls
             # Shape: (batch, features, out_c, in_c, reps)
 
-            # Sum over batch and features dimensions
+            # Sum over batch dimension
             log_expectations = torch.logsumexp(log_expectations, dim=0)  # (features, out_c, in_c, reps)
-            log_expectations = torch.logsumexp(log_expectations, dim=0)  # (out_c, in_c, reps)
 
-            # Normalize over in_channels (sum dimension for this module)
-            # The sum_dim for SumConv is dimension 1 (in_channels)
-            log_expectations = torch.log_softmax(log_expectations, dim=1)
-
-            # Update log_weights: need to expand to full kernel shape
-            # Current shape: (out_c, in_c, reps)
-            # Target shape: (out_c, in_c, k, k, reps)
-            k = self.kernel_size
-            new_log_weights = rearrange(log_expectations, "co ci r -> co ci 1 1 r")
-            new_log_weights = repeat(new_log_weights, "co ci 1 1 r -> co ci kh kw r", kh=k, kw=k)
+            # Every kernel position has its own weights: sum over the features that share it and
+            # normalize over in_channels. Unused positions keep their weights.
+            new_log_weights = self.logits.detach().clone()
+            for i in range(k):
+                for j in range(k):
+                    used = (kh_idx == i) & (kw_idx == j)
+                    if used.any():
+                        position = torch.logsumexp(log_expectations[used], dim=0)  # (out_c, in_c, reps)
+                        new_log_weights[:, :, i, j, :] = torch.log_softmax(position, dim=1)
 
             # Set new weights
             self.logits.data = new_log_weights.contiguous()
-- 
2.43.0


From c4bc97128020d6d339016322a267ce1c708c8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:07 +0000
Subject: [PATCH 24/35] fix: keep other inputs' channels when sampling a
 broadcasting ElementwiseProduct

---
 spflow/modules/products/elementwise_product.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index ee2d008..bc4ce55 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -194,7 +194,8 @@ class ElementwiseProduct(BaseProduct):
 
         num_inputs = len(self.inputs)
         if not output_ids.is_floating_point():
-            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs)
+            # `repeat` returns an expanded view: copy before writing single inputs.
+            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs).clone()
             for i, inp in enumerate(self.inputs):
                 if int(inp.out_shape.channels) == 1:
                     mapped[..., i] = 0
-- 
2.43.0


From 00fc33753154aa487e8386c77457a4af60ab0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 25/35] fix: one-hot indexing ignores infinite entries that are
 not selected

---
 spflow/utils/sampling_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index af8cc66..6842e29 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -1117,6 +1117,8 @@ def index_one_hot(tensor: torch.Tensor, index: torch.Tensor, dim: int) -> torch.
         tensor.dim() == index.dim()
     ), f"Tensor and index number of dimensions must be the same but was tensor.dim()={tensor.dim()} and index.dim()={index.dim()}"
 
+    # Entries that are not selected contribute nothing, even if infinite (-inf * 0 would be NaN).
+    tensor = torch.where(torch.isinf(tensor) & (index == 0), torch.zeros_like(tensor), tensor)
     return torch.sum(tensor * index, dim=dim)
 
 
-- 
2.43.0


From d33941834c8d8ccbd5022cadaa60763a087392c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 26/35] fix: RepetitionMixingLayer sampling accepts requests in
 its own repetition width

---
 spflow/modules/sums/repetition_mixing_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 54f942f..1a2f477 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -122,7 +122,7 @@ class RepetitionMixingLayer(Sum):
             num_samples=data.shape[0],
             num_features=self.out_shape.features,
             num_channels=self.out_shape.channels,
-            num_repetitions=self.out_shape.repetitions,
+            # The incoming repetition is not used: this layer draws the repetition itself.
             allowed_feature_widths=(1, self.out_shape.features),
         )
         sampling_ctx.broadcast_feature_width(target_features=self.out_shape.features, allow_from_one=True)
-- 
2.43.0


From 8b2bfc267f04717bc10aa3cb4d7ff142eacbfbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:51 +0000
Subject: [PATCH 27/35] fix: differentiable sampling of multi-class Einet

---
 spflow/zoo/einet/einet.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 3fd5cc0..7c9d437 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -32,7 +32,7 @@ from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
 from spflow.utils.inference import log_posterior
-from spflow.utils.sampling_context import LeafParamRecord, SamplingContext
+from spflow.utils.sampling_context import LeafParamRecord, SamplingContext, sample_from_logits
 
 
 class Einet(Module, Classifier):
@@ -459,10 +459,13 @@ class Einet(Module, Classifier):
             if class_lls is not None:
                 logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
 
-            if sampling_ctx.is_mpe:
-                sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
-            else:
-                sampling_ctx.channel_index = torch.distributions.Categorical(logits=logits).sample()
+            sampling_ctx.channel_index = sample_from_logits(
+                logits=logits,
+                dim=-1,
+                is_mpe=sampling_ctx.is_mpe,
+                is_differentiable=sampling_ctx.is_differentiable,
+                tau=sampling_ctx.tau,
+            )
 
         # Sample from appropriate root
         if self.num_classes > 1:
-- 
2.43.0


From 84018b50bd731c0309cef79b75bdadb11996dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:24 +0000
Subject: [PATCH 28/35] fix: Einsum eval weight cache is keyed by the logits'
 values

---
 spflow/modules/einsum/einsum_layer.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 23b47bb..61ef773 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -201,7 +201,7 @@ class EinsumLayer(Module):
 
         # Register logits parameter
         self.logits = nn.Parameter(torch.zeros(self.weights_shape))
-        self._eval_weight_cache: tuple[int, Tensor] | None = None
+        self._eval_weight_cache: tuple[Tensor, Tensor, int] | None = None
 
         # Set weights via property (converts to logits)
         self.weights = weights
@@ -311,21 +311,25 @@ class EinsumLayer(Module):
             weights = torch.nn.functional.softmax(flat_logits, dim=-1)
             return weights.unflatten(-1, (self._left_channels, self._right_channels))
 
+        # The cache entry is keyed by the logits' values: version counters and storages do not
+        # identify them (e.g. `.data` updates, replaced parameters, deep copies). The weights'
+        # version drops entries whose returned tensor was modified in place.
         cache_entry = self._eval_weight_cache
-        current_version = self.logits._version
         if cache_entry is not None:
-            cached_version, cached_weights = cache_entry
+            cached_logits, cached_weights, weights_version = cache_entry
             if (
-                cached_version == current_version
-                and cached_weights.device == self.logits.device
-                and cached_weights.dtype == self.logits.dtype
+                cached_weights._version == weights_version
+                and cached_logits.device == self.logits.device
+                and cached_logits.dtype == self.logits.dtype
+                and torch.equal(cached_logits, self.logits)
             ):
                 return cached_weights
 
         flat_logits = self.logits.flatten(start_dim=-2)
         weights = torch.nn.functional.softmax(flat_logits, dim=-1)
         normalized = weights.unflatten(-1, (self._left_channels, self._right_channels))
-        self._eval_weight_cache = (current_version, normalized)
+        if not normalized.is_inference():  # inference-mode tensors do not track versions
+            self._eval_weight_cache = (self.logits.detach().clone(), normalized, normalized._version)
         return normalized
 
     def _use_factored_probability_contraction(self, device: torch.device) -> bool:
-- 
2.43.0


From 3668fd2d673d9d9eb233c2d25b3c83b9eff651b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:03 +0000
Subject: [PATCH 29/35] fix: Histogram inner product with a single segment
 keeps its segment axis

---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 3550579..940633b 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -335,8 +335,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         in2 = (mids >= edges2[0]) & (mids < edges2[-1])
         mask = (in1 & in2).to(dtype=torch.float64)
 
-        d1 = dens1.index_select(-1, idx1).squeeze(-1)  # (F,Ca,1,R,S)
-        d2 = dens2.index_select(-1, idx2).squeeze(-1)  # (F,1,Cb,R,S)
+        d1 = dens1.index_select(-1, idx1)  # (F,Ca,1,R,S)
+        d2 = dens2.index_select(-1, idx2)  # (F,1,Cb,R,S)
         prod = d1 * d2  # (F,Ca,Cb,R,S)
         out = torch.sum(prod * rearrange(seg_len * mask, "s -> 1 1 1 1 s"), dim=-1)
         return out
-- 
2.43.0


From 9024a5344a720b6b91cb7e4a5aa06fbe10135178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:31 +0000
Subject: [PATCH 30/35] fix: leaf inner products require the same variable
 order

---
 spflow/utils/inner_product_core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 940633b..5d9f037 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -54,6 +54,9 @@ def _ensure_same_scope(a: Module, b: Module) -> None:
 
 
 def _leaf_event_shape_ok(a: LeafModule, b: LeafModule) -> None:
+    # Features are paired by position, so both leaves must list the variables in the same order.
+    if a.scope.query != b.scope.query:
+        raise ShapeError(f"Leaf variable order must match: {a.scope.query} vs {b.scope.query}.")
     if a.out_shape.features != b.out_shape.features:
         raise ShapeError("Leaf features must match for inner product.")
     if a.out_shape.repetitions != b.out_shape.repetitions:
@@ -663,6 +666,8 @@ def triple_product_tensor(
     )
 
     if a_is_leaf_like and b_is_leaf_like and c_is_leaf_like:
+        _leaf_event_shape_ok(cast(LeafModule, a), cast(LeafModule, b))
+        _leaf_event_shape_ok(cast(LeafModule, a), cast(LeafModule, c))
         # Handle a subset of leaf triples explicitly; otherwise reduce to finite sums/interval overlap where possible.
         if (
             _SignedCategorical is not None
-- 
2.43.0


From e47bfb35be015c66fa9290695fd1ec014b1712a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:37 +0000
Subject: [PATCH 31/35] fix: Module.mpe(data=...) accepts image-shaped data

---
 spflow/modules/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/module.py b/spflow/modules/module.py
index c6532a1..6d2cc02 100644
--- a/spflow/modules/module.py
+++ b/spflow/modules/module.py
@@ -288,7 +288,7 @@ class Module(nn.Module, ABC):
         Raises:
             ValueError: If sampling parameters are incompatible.
         """
-        if data is not None and cache is None and not torch.isnan(data[:, list(self.scope.query)]).all():
+        if data is not None and cache is None and not torch.isnan(data).all():
             # the maximising branches depend on the likelihood of the observed entries
             cache = Cache()
             self.log_likelihood(data, cache=cache)
-- 
2.43.0


From f7ce7abf7f4bba9d5f6c7d10d009bb0eeda07ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:37 +0000
Subject: [PATCH 32/35] fix: ImageWrapper maps pixels to the columns of its
 variables after marginalisation

---
 spflow/modules/wrapper/image_wrapper.py | 40 ++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/wrapper/image_wrapper.py b/spflow/modules/wrapper/image_wrapper.py
index 04c181c..423df94 100644
--- a/spflow/modules/wrapper/image_wrapper.py
+++ b/spflow/modules/wrapper/image_wrapper.py
@@ -141,6 +141,32 @@ class ImageWrapper(Wrapper):
                 w=image_width,
             )
 
+    def _to_columns(self, flat: Tensor) -> Tensor:
+        """Move the flattened pixels to the data columns of the variables they stand for.
+
+        Pixels stand for the variables of the scope in increasing order. After marginalization
+        these are no longer the first columns.
+
+        Args:
+            flat: 2D tensor of shape (batch, channels*height*width).
+
+        Returns:
+            2D tensor with a column for every variable, missing (NaN) outside the scope.
+        """
+        columns = sorted(self.scope.query)
+        if columns == list(range(flat.shape[1])):
+            return flat
+        data = torch.full((flat.shape[0], columns[-1] + 1), float("nan"), dtype=flat.dtype, device=flat.device)
+        data[:, columns] = flat
+        return data
+
+    def _from_columns(self, data: Tensor) -> Tensor:
+        """Inverse of :meth:`_to_columns`."""
+        columns = sorted(self.scope.query)
+        if columns == list(range(data.shape[1])):
+            return data
+        return data[:, columns]
+
     def extra_repr(self):
         return f"C={self.num_channel}, H={self.height}, W={self.width}"
 
@@ -168,7 +194,7 @@ class ImageWrapper(Wrapper):
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
 
-        data = self.flatten(data)
+        data = self._to_columns(self.flatten(data))
         self.module._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
 
     @cached
@@ -200,7 +226,7 @@ class ImageWrapper(Wrapper):
             raise ShapeError(
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
-        data = self.flatten(data)
+        data = self._to_columns(self.flatten(data))
 
         log_prob = self.module.log_likelihood(data, cache=cache)
 
@@ -278,14 +304,14 @@ class ImageWrapper(Wrapper):
         )
 
         # Flatten data to 2D for processing
-        flat_data = self.flatten(data)
+        flat_data = self._to_columns(self.flatten(data))
 
         self.module._sample(
             data=flat_data,
             cache=cache,
             sampling_ctx=sampling_ctx,
         )
-        image = self.to_image_format(flat_data)
+        image = self.to_image_format(self._from_columns(flat_data))
         if return_leaf_params:
             return image, sampling_ctx.leaf_param_records()
         return image
@@ -296,13 +322,13 @@ class ImageWrapper(Wrapper):
         sampling_ctx: SamplingContext,
         cache: Cache,
     ) -> Tensor:
-        flat_data = self.flatten(data)
+        flat_data = self._to_columns(self.flatten(data))
         self.module._sample(
             data=flat_data,
             cache=cache,
             sampling_ctx=sampling_ctx,
         )
-        return self.to_image_format(flat_data)
+        return self.to_image_format(self._from_columns(flat_data))
 
     def marginalize(
         self,
@@ -323,7 +349,7 @@ class ImageWrapper(Wrapper):
         """
 
         marg_rvs = []
-        scope = torch.as_tensor(self.scope.query, dtype=torch.long)
+        scope = torch.as_tensor(sorted(self.scope.query), dtype=torch.long)
 
         scope = self.to_image_format(scope, batch=False)
 
-- 
2.43.0


From 6c20aa847c5dcd56dd95f04ed361d13152c19de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:37 +0000
Subject: [PATCH 33/35] fix: prune_sums keeps the weights of multi-channel sums
 and feature concatenations

---
 spflow/learn/learn_spn.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 8323844..e7ea1ba 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -37,7 +37,7 @@ def prune_sums(node):
         child = node.inputs
         new_children = []
         new_weights = []
-        if isinstance(child, Cat):
+        if isinstance(child, Cat) and child.dim == 2:
             # prune if all children of the cat module are sums
             all_sums = all(isinstance(c, Sum) for c in child.inputs)
             if all_sums:
@@ -48,18 +48,23 @@ def prune_sums(node):
             # if we have new children, we need to update the weights
             current_weights = node.weights
             updated_weights = []
-            for i in range(len(new_weights)):
+            start = 0
+            for child_weights in new_weights:
+                # every child owns a block of the concatenated channels
+                stop = start + child_weights.shape[2]
                 updated_weights.append(
-                    new_weights[i] * current_weights[:, i, :].unsqueeze(1),
+                    torch.einsum("fikr,fkor->fior", child_weights, current_weights[:, start:stop]),
                 )
+                start = stop
             updated_weights = torch.concatenate(updated_weights, dim=1)
 
-            all_cat = all(isinstance(c, Cat) for c in new_children)
+            all_cat = all(isinstance(c, Cat) and c.dim == 2 for c in new_children)
             if all_cat:
                 # if cat(cat) -> cat
                 node.inputs = Cat([input_elem for c in new_children for input_elem in c.inputs], dim=2)
             else:
                 node.inputs = Cat(new_children, dim=2)
+            node.in_shape = node.inputs.out_shape
             node.weights_shape = updated_weights.shape
             node.weights = updated_weights
             # call prune on the same node to prune in case new double sums are formed
-- 
2.43.0


From d44cbe4175678a6e63a13de4852a94f33177798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:37 +0000
Subject: [PATCH 34/35] fix: randomly initialised HCLT transitions have one
 output per hidden category

---
 spflow/zoo/hclt/learn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/hclt/learn.py b/spflow/zoo/hclt/learn.py
index 0a45733..3c5bbbf 100644
--- a/spflow/zoo/hclt/learn.py
+++ b/spflow/zoo/hclt/learn.py
@@ -67,7 +67,11 @@ def _build_hclt_from_tree(
                 continue
             child_sub = build_subtree(ch, node)
             weights = None if init != "uniform" else uniform_sum_weights(num_hidden_cats, num_hidden_cats)
-            trans = Sum(inputs=child_sub) if weights is None else Sum(inputs=child_sub, weights=weights)
+            trans = (
+                Sum(inputs=child_sub, out_channels=num_hidden_cats)
+                if weights is None
+                else Sum(inputs=child_sub, weights=weights)
+            )
             child_msgs.append(trans)
 
         if not child_msgs:
-- 
2.43.0


From 40c1fb64774a1ae430277209f090d0ebb2757e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:37 +0000
Subject: [PATCH 35/35] fix: topk_mst enumerates maximum spanning trees when
 maximising

---
 spflow/zoo/hclt/topk_mst.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/spflow/zoo/hclt/topk_mst.py b/spflow/zoo/hclt/topk_mst.py
index d5ed65a..ce51a07 100644
--- a/spflow/zoo/hclt/topk_mst.py
+++ b/spflow/zoo/hclt/topk_mst.py
@@ -106,23 +106,27 @@ def mst_with_constraints(
 
     reuse[:, :] = weights
 
+    # Weight of an edge that must (not) be picked: depends on the optimization direction.
+    best = -np.inf if minimize else np.inf
+    worst = -best
+
     n = int(weights.shape[0])
     if dropout_prob > 0.0:
         rng = rng or np.random.default_rng()
         mask = rng.random((n, n)) < dropout_prob
         mask = np.triu(mask, k=1)
-        reuse[mask] = np.inf
-        reuse[(mask.T)] = np.inf
+        reuse[mask] = worst
+        reuse[(mask.T)] = worst
 
     included = {_canon_edge(e) for e in included_edges}
     excluded = {_canon_edge(e) for e in excluded_edges}
 
     for a, b in included:
-        reuse[a, b] = -np.inf
-        reuse[b, a] = -np.inf
+        reuse[a, b] = best
+        reuse[b, a] = best
     for a, b in excluded:
-        reuse[a, b] = np.inf
-        reuse[b, a] = np.inf
+        reuse[a, b] = worst
+        reuse[b, a] = worst
 
     mst = kruskal_mst_complete(reuse, minimize=minimize)
     mst_set = set(mst)
@@ -174,8 +178,10 @@ def topk_mst(
     def key_for(mst_edges: list[Edge], included_edges: list[Edge], excluded_edges: list[Edge]) -> tuple:
         return (tuple(mst_edges), tuple(included_edges), tuple(excluded_edges))
 
+    # The heap pops the smallest key first: negate the totals when maximizing.
+    sign = 1.0 if minimize else -1.0
     heap: list[tuple[float, tuple, list[Edge], list[Edge], list[Edge]]] = []
-    heappush(heap, (float(total0), key_for(mst0, [], []), mst0, [], []))
+    heappush(heap, (sign * float(total0), key_for(mst0, [], []), mst0, [], []))
 
     out: list[list[Edge]] = []
     while heap and len(out) < num_trees:
@@ -217,6 +223,6 @@ def topk_mst(
                 continue
             inc = list(included_edges)
             exc = list(excluded_edges)
-            heappush(heap, (float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
+            heappush(heap, (sign * float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
 
     return out
-- 
2.43.0

