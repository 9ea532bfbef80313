From b5350d6d29f3d7000f46326af2da7e2ef5a53c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 01/32] fix: LinsumLayer2 sampling dropped an input feature
 when num_features is odd

---
 simple_einet/layers/linsum.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index ecd47ac..e48301b 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -317,11 +317,6 @@ class LinsumLayer2(AbstractSumLayer):
 
             indices = indices.view(ctx.num_samples, -1)
 
-
-        if self._pad > 0:
-            # Cut off dummy marginalized RVs
-            indices = indices[:, : -self._pad]
-
         return indices
 
     def _condition_weights_on_evidence(self, ctx, log_weights):
-- 
2.43.0


From f8871aaeeb3e736259e79ac78ede22ef45367d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 02/32] fix: FactorizedLeafSimple sampling assigned parent
 indices to the wrong feature group

---
 simple_einet/layers/factorized_leaf.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index bfffc05..0851d4c 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -333,8 +333,8 @@ class FactorizedLeafSimple(AbstractLayer):
         if ctx.is_differentiable:
 
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -350,8 +350,8 @@ class FactorizedLeafSimple(AbstractLayer):
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
@@ -373,8 +373,8 @@ class FactorizedLeafSimple(AbstractLayer):
         num_params = params.shape[-1]  # Number of parameters, e.g. 2 for Normal (mu and sigma)
         if ctx.is_differentiable:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -392,8 +392,8 @@ class FactorizedLeafSimple(AbstractLayer):
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
-- 
2.43.0


From 105fa7c8424411a215322c99e4ecad0bada0012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 03/32] fix: FactorizedLeafSimple differentiable leaf parameter
 lookup used the wrong channel axis

---
 simple_einet/layers/factorized_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 0851d4c..dd2f7a9 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -388,7 +388,7 @@ class FactorizedLeafSimple(AbstractLayer):
 
             indices_out = indices_out.unsqueeze(-1)
             params = params.squeeze(-2)  # remove repetition index
-            indices_out = indices_out.unsqueeze(-1)  # make space for num_channels dim
+            indices_out = indices_out.unsqueeze(1)  # make space for num_channels dim
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-- 
2.43.0


From 558e88aafec92f6d3851b8309e369e4533f3275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 04/32] fix: class sampling root ignored the uniform class
 prior (wrong attribute name)

---
 simple_einet/einet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index b26470e..52d2f7c 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -332,7 +332,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
@@ -465,7 +465,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
-- 
2.43.0


From 34b265df6a591debf4e994da3510edc72b24eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 05/32] fix: conditional sampling of multi-class models ignored
 the evidence when sampling the class

---
 simple_einet/einet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 52d2f7c..7337772 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -201,6 +201,10 @@ class Einet(nn.Module):
         # Final shape check
         assert x.shape == (batch_size, self.config.num_classes)
 
+        # When conditioning on evidence, let the class sampling root observe the class likelihoods
+        if self.config.num_classes > 1 and self._class_sampling_root._is_input_cache_enabled:
+            self._class_sampling_root(x.view(batch_size, 1, self.config.num_classes, 1))
+
         return x
 
     def _forward_layers(self, x):
-- 
2.43.0


From dd1de102b51d9064b93e298dca936531b6d5f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 06/32] fix: differentiable class-conditional sampling and
 class lists without num_samples

---
 simple_einet/einet.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 7337772..6986bb3 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -588,6 +588,9 @@ class Einet(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample per given class
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
@@ -627,10 +630,9 @@ class Einet(nn.Module):
                             # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
-                            indices.requireds_grad_(True)  # Enable gradients
-                        num_samples = indices.shape[0]
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
+                            indices.requires_grad_(True)  # Enable gradients
                     else:
                         indices = torch.empty(size=(num_samples, 1), dtype=torch.long, device=self.__device)
                         indices.fill_(class_index)
@@ -638,8 +640,8 @@ class Einet(nn.Module):
                             # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
                             indices.requires_grad_(True)  # Enable gradients
 
                     ctx.indices_out = indices
-- 
2.43.0


From 8f55a225daec1d5adeccdf01d27c2f5c45aeb233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 07/32] fix: sampling_context left caches enabled and the RNG
 state unrestored when the body or forward pass fails

---
 simple_einet/sampling_utils.py | 48 ++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 852731e..bf3379c 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -45,29 +45,31 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in spn.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = spn(evidence, marginalized_scopes)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
-        if evidence is not None:
-            for module in spn.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._disable_input_cache()
-
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+    try:
+        # Run forward pass in given context
+        with context():
+            try:
+                if evidence is not None:
+                    # Enter
+                    for module in spn.modules():
+                        if hasattr(module, "_enable_input_cache"):
+                            module._enable_input_cache()
+
+                    _ = spn(evidence, marginalized_scopes)
+
+                # Run in context (nothing needs to be yielded)
+                yield
+            finally:
+                # Exit (also if the forward pass or the body of the context fails)
+                if evidence is not None:
+                    for module in spn.modules():
+                        if hasattr(module, "_enable_input_cache"):
+                            module._disable_input_cache()
+    finally:
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 @dataclass
-- 
2.43.0


From 636afd8452d51804933fa6785548bc84f5111b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 08/32] fix: return_leaf_params with index-based sampling
 failed for several samples and dropped parameters

---
 simple_einet/layers/distributions/abstract_leaf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 6b1edc4..2c6e6c5 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -119,6 +119,7 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
 
             # Add batch dimension
             samples = samples.unsqueeze(0)
+            samples = samples.expand(ctx.num_samples, *samples.shape[1:])
         else:
             if type(distribution) == dist.Normal:
                 distribution = dist.Normal(loc=distribution.loc, scale=distribution.scale * np.sqrt(ctx.temperature_leaves))
@@ -144,7 +145,7 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         samples = index_one_hot(samples, index=r_idxs, dim=-2)
     else:
         r_idxs = ctx.indices_repetition.view(-1, 1, 1, 1, 1, 1)
-        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, -1)
+        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, num_params)
         samples = samples.gather(dim=-2, index=r_idxs)
         samples = samples.squeeze(-2)
 
@@ -156,8 +157,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         else:
             # Choose only specific samples for each feature/scope
             p_idxs = ctx.indices_out.view(-1, 1, num_features, 1, 1)
-            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, -1)
-            samples = samples.gather(dim=3, index=p_idxs).squeeze(-1)
+            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, num_params)
+            samples = samples.gather(dim=3, index=p_idxs).squeeze(3)
 
     if ctx.return_leaf_params:
         return samples
-- 
2.43.0


From 588a04a8509a01901136d682f9360262c54102b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 09/32] fix: sampling from models with Bernoulli leaves raised
 TypeError

---
 simple_einet/layers/distributions/bernoulli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/bernoulli.py b/simple_einet/layers/distributions/bernoulli.py
index 7b52e05..0872f24 100644
--- a/simple_einet/layers/distributions/bernoulli.py
+++ b/simple_einet/layers/distributions/bernoulli.py
@@ -3,6 +3,7 @@ from torch import distributions as dist
 from torch import nn
 
 from simple_einet.layers.distributions.abstract_leaf import AbstractLeaf
+from simple_einet.sampling_utils import SamplingContext
 
 
 class Bernoulli(AbstractLeaf):
@@ -26,6 +27,6 @@ class Bernoulli(AbstractLeaf):
         # Create bernoulli parameters
         self.probs = nn.Parameter(torch.randn(1, num_channels, num_features, num_leaves, num_repetitions))
 
-    def _get_base_distribution(self):
+    def _get_base_distribution(self, ctx: SamplingContext = None):
         # Use sigmoid to ensure, that probs are in valid range
         return dist.Bernoulli(probs=torch.sigmoid(self.probs))
-- 
2.43.0


From 1b7c59e83a29044737610b607a4cc2839f64a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 10/32] fix: sampling with leaves of cardinality > 1 mapped
 parent indices to the wrong variables or failed

---
 simple_einet/layers/factorized_leaf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index dd2f7a9..f41336a 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -142,6 +142,7 @@ class FactorizedLeaf(AbstractLayer):
 
             indices_in = index_one_hot(indices_out.unsqueeze(1), index=scopes.unsqueeze(-1), dim=2)
             indices_in = indices_in.unsqueeze(1)  # make space for channel dim
+            indices_in = indices_in.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = index_one_hot(samples, index=indices_in, dim=-1)
         else:
             # Select the correct repetitions
@@ -152,7 +153,7 @@ class FactorizedLeaf(AbstractLayer):
             indices_in_gather = indices_in_gather.view(ctx.num_samples, 1, -1, 1)
 
             indices_in_gather = indices_in_gather.expand(-1, self.base_leaf.num_channels, -1, -1)
-            indices_in_gather = indices_in_gather.repeat(1, 1, self.base_leaf.cardinality, 1)
+            indices_in_gather = indices_in_gather.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = samples.gather(dim=-1, index=indices_in_gather)
             samples.squeeze_(-1)  # Remove num_leaves dimension
         return samples
@@ -347,6 +348,7 @@ class FactorizedLeafSimple(AbstractLayer):
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
             indices_out = indices_out.unsqueeze(1)  # make space for channel dim
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
@@ -361,6 +363,7 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, :, : -self.num_dummy_nodes]
 
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=2)
             indices_out = indices_out.unsqueeze(-1)
             samples = samples.gather(index=indices_out, dim=-1)
             samples = samples.squeeze(-1)
-- 
2.43.0


From fe75d88e7a2be809bb9143471fae315c1d02c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:31 +0000
Subject: [PATCH 11/32] fix: marginalized_scopes given as a list failed for
 leaves of cardinality > 1

---
 simple_einet/layers/distributions/abstract_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 2c6e6c5..da66d7d 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -255,7 +255,7 @@ class AbstractLeaf(AbstractLayer, ABC):
 
             # Adjust for leaf cardinality
             if self.cardinality > 1:
-                s = marginalized_scopes.div(self.cardinality, rounding_mode="floor")
+                s = s.div(self.cardinality, rounding_mode="floor")
 
             x[:, :, s] = self.marginalization_constant
         else:
-- 
2.43.0


From 32589799b61e0e2069980f33746624592f7e6d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 12/32] fix: bounds checks ignored a bound of zero

---
 simple_einet/type_checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/type_checks.py b/simple_einet/type_checks.py
index 6394610..f98d10b 100644
--- a/simple_einet/type_checks.py
+++ b/simple_einet/type_checks.py
@@ -47,12 +47,12 @@ def _check_bounds(value: Any, expected_type, lower_bound=None, upper_bound=None)
         OutOfBoundsException: If the value is outside the specified bounds.
     """
     # Check lower bound
-    if lower_bound:
+    if lower_bound is not None:
         if not value >= expected_type(lower_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
     # Check upper bound
-    if upper_bound:
+    if upper_bound is not None:
         if not value < expected_type(upper_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
-- 
2.43.0


From e74c87afbc5dbb95279d357aa45e05c7d7888c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 13/32] fix: RatNormal ignored a maximum mean of zero

---
 simple_einet/layers/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/normal.py b/simple_einet/layers/distributions/normal.py
index 5a8273b..759b16c 100644
--- a/simple_einet/layers/distributions/normal.py
+++ b/simple_einet/layers/distributions/normal.py
@@ -105,7 +105,7 @@ class RatNormal(AbstractLeaf):
         else:
             sigma = 1.0
         means = self.means
-        if self.max_mean:
+        if self.max_mean is not None:
             assert self.min_mean is not None
             mean_range = self.max_mean - self.min_mean
             means = torch.sigmoid(self.means) * mean_range + self.min_mean
-- 
2.43.0


From c0c00d3ed7ea7a170934f71ddb0a68f84a08c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 14/32] fix: binomial mode exceeded total_count for saturated
 probabilities

---
 simple_einet/layers/distributions/abstract_leaf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index da66d7d..f3696f1 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -77,7 +77,8 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
     elif isinstance(distribution, dist.Binomial) or isinstance(distribution, DifferentiableBinomial):
         mode = distribution.probs.clone()
         total_count = distribution.total_count
-        mode = torch.floor(mode * (total_count + 1))
+        # Clamp since probabilities that round to 1.0 would otherwise result in total_count + 1
+        mode = torch.floor(mode * (total_count + 1)).clamp(max=total_count)
         if mode.shape[0] == 1:
             return mode.repeat(ctx.num_samples, 1, 1, 1, 1)
         else:
-- 
2.43.0


From f8cc03caf7102dc561155093da74008b9541521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 15/32] fix: RatNormal accepted a single mean bound and then
 ignored it or failed

---
 simple_einet/layers/distributions/normal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/layers/distributions/normal.py b/simple_einet/layers/distributions/normal.py
index 759b16c..3d34b64 100644
--- a/simple_einet/layers/distributions/normal.py
+++ b/simple_einet/layers/distributions/normal.py
@@ -90,6 +90,9 @@ class RatNormal(AbstractLeaf):
         self.max_sigma = check_valid(max_sigma, float, min_sigma)
         self.min_mean = check_valid(min_mean, float, upper_bound=max_mean, allow_none=True)
         self.max_mean = check_valid(max_mean, float, min_mean, allow_none=True)
+        assert (self.min_mean is None) == (
+            self.max_mean is None
+        ), "The bounds min_mean and max_mean must either both be set or both be None."
 
     def _get_base_distribution(self, ctx: SamplingContext = None) -> "CustomNormal":
         means, sigma = self._project_params()
-- 
2.43.0


From c3eb09a6e49dc743bb7235253aa71ad096162d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 16/32] fix: MultiDistributionLayer accepted scopes that do not
 cover every feature exactly once

---
 simple_einet/layers/distributions/multidistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 5eefab4..bd0cbca 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -41,7 +41,7 @@ class MultiDistributionLayer(AbstractLeaf):
             for scope in scopes:
                 all_scopes.append(scope)
 
-        assert len(all_scopes) == num_features
+        assert sorted(all_scopes) == list(range(num_features)), "Each feature must be covered by exactly one distribution."
         scope_list = []
         dists = []
         for scopes, dist_class, dist_kwargs in scopes_to_dist:
-- 
2.43.0


From a6378934476978eba15163ea4b6901bf83272a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 17/32] fix: sum layer dropout resampled over the wrong axis
 and dropped sum outputs instead of children

---
 simple_einet/abstract_layers.py | 19 +++++++++++++++++++
 simple_einet/layers/linsum.py   | 24 +++++-------------------
 simple_einet/layers/sum.py      |  9 +--------
 3 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/simple_einet/abstract_layers.py b/simple_einet/abstract_layers.py
index 514931f..de572a8 100644
--- a/simple_einet/abstract_layers.py
+++ b/simple_einet/abstract_layers.py
@@ -162,6 +162,25 @@ class AbstractSumLayer(AbstractLayer):
         """Returns the device of the layer's logits."""
         return self.logits.device
 
+    def _sample_log_dropout(self, shape, dim: int) -> Tensor:
+        """
+        Samples a dropout mask in log-space: 0 for values that are kept, -inf for values that are dropped.
+
+        Args:
+            shape: Shape of the mask.
+            dim (int): Dimension of the sum node children. A sum node never loses all of its children.
+
+        Returns:
+            Tensor: Dropout mask that is to be added to the log-probabilities of the children.
+        """
+        dropout_indices = self._bernoulli_dist.sample(shape)
+        invalid_index = dropout_indices.sum(dim, keepdim=True) == shape[dim]
+        while invalid_index.any():
+            # Resample only invalid indices
+            dropout_indices = torch.where(invalid_index, self._bernoulli_dist.sample(shape), dropout_indices)
+            invalid_index = dropout_indices.sum(dim, keepdim=True) == shape[dim]
+        return torch.log(1 - dropout_indices)
+
     def _check_repetition_indices(self, ctx: SamplingContext):
         if self.num_repetitions == 1 and ctx.indices_repetition is None:
             ctx.indices_repetition = torch.zeros(ctx.num_samples, dtype=torch.long, device=self._device)
diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index e48301b..769944e 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -89,14 +89,7 @@ class LinsumLayer(AbstractSumLayer):
 
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            dropout_indices = torch.log(1 - dropout_indices)
-            prod_output = prod_output + dropout_indices
+            prod_output = prod_output + self._sample_log_dropout(prod_output.shape, dim=2)
 
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
@@ -272,6 +265,10 @@ class LinsumLayer2(AbstractSumLayer):
         if self._is_input_cache_enabled:
             self._input_cache["x"] = x
 
+        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
+        if self.dropout > 0.0 and self.training:
+            x = x + self._sample_log_dropout(x.shape, dim=2)
+
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
         x = x.unsqueeze(3)
@@ -287,17 +284,6 @@ class LinsumLayer2(AbstractSumLayer):
 
         prod_output = left + right  # N x D/2 x Sout x 1 x R
 
-        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
-        if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            dropout_indices = torch.log(1 - dropout_indices)
-            prod_output = prod_output + dropout_indices
-
         return prod_output
 
     def _sample_from_weights(self, ctx, log_weights):
diff --git a/simple_einet/layers/sum.py b/simple_einet/layers/sum.py
index 4080716..4cd5ef4 100644
--- a/simple_einet/layers/sum.py
+++ b/simple_einet/layers/sum.py
@@ -67,14 +67,7 @@ class SumLayer(AbstractSumLayer):
 
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(x.shape)
-            invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
-            dropout_indices = torch.log(1 - dropout_indices)
-            x = x + dropout_indices
+            x = x + self._sample_log_dropout(x.shape, dim=2)
 
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
-- 
2.43.0


From cf20ef722fc58b106378e4c13d680df6f0ff2e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 18/32] fix: EinsumLayer ignored its dropout and overwrote its
 input in place

---
 simple_einet/layers/einsum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index bb6e6a6..3f87495 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -64,6 +64,7 @@ class EinsumLayer(AbstractSumLayer):
             num_repetitions=num_repetitions,
             num_sums_in=num_sums_in,
             num_sums_out=num_sums_out,
+            dropout=dropout,
         )
 
         # Create index map from flattened to coordinates (only needed in sampling)
@@ -115,8 +116,7 @@ class EinsumLayer(AbstractSumLayer):
 
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(x.shape).bool()
-            x[dropout_indices] = np.NINF
+            x = x + self._sample_log_dropout(x.shape, dim=2)
 
         # Dimensions
         N, D, C, R = x.size()
-- 
2.43.0


From d9606691231c9b2a9348b2b4027548073bd32b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 19/32] fix: bottom-up structure with depth 0 could not be
 constructed

---
 simple_einet/einet.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 6986bb3..ea74604 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -356,6 +356,7 @@ class Einet(nn.Module):
 
         # Construct layers from bottom to top
         in_features = self.config.num_features
+        _num_sums_out = self.config.num_leaves  # Inputs of the root sum if there are no intermediate layers
         for i in np.arange(start=0, stop=self.config.depth):
             # Choose number of input sum nodes
             # - if this is an intermediate layer, use the number of sum nodes from the previous layer
@@ -407,27 +408,14 @@ class Einet(nn.Module):
 
             intermediate_layers.append(layer)
 
-        if self.config.depth == 0:
-            # Create a single sum layer
-            layer = SumLayer(
-                num_sums_in=self.config.num_leaves,
-                num_features=1,
-                num_sums_out=self.config.num_classes,
-                num_repetitions=self.config.num_repetitions,
-                dropout=self.config.dropout,
-            )
-            intermediate_layers.append(layer)
-
         # Construct final root product layer
         root_sum = SumLayer(
             num_sums_in=_num_sums_out,
             num_sums_out=self.config.num_classes,
-            num_features=intermediate_layers[-1].num_features_out,
+            num_features=in_features,
             num_repetitions=self.config.num_repetitions,
         )
-        root_product = RootProductLayer(
-            num_features=intermediate_layers[-1].num_features_out, num_repetitions=self.config.num_repetitions
-        )
+        root_product = RootProductLayer(num_features=in_features, num_repetitions=self.config.num_repetitions)
 
         intermediate_layers.append(root_sum)
         intermediate_layers.append(root_product)
-- 
2.43.0


From bd3430a2c154c6be1ba6cdd378af5ade901254c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 20/32] fix: EinetConfig accepted configurations that no model
 can be built from

---
 simple_einet/einet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index ea74604..4dde96e 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -50,7 +50,7 @@ class EinetConfig:
         check_valid(self.num_sums, int, 1)
         check_valid(self.num_repetitions, int, 1)
         check_valid(self.num_leaves, int, 1)
-        check_valid(self.dropout, float, 0.0, 1.0, allow_none=True)
+        check_valid(self.dropout, float, 0.0, 1.0)
         assert self.leaf_type is not None, "EinetConfig.leaf_type parameter was not set!"
         assert self.layer_type in [
             "linsum",
@@ -74,6 +74,7 @@ class EinetConfig:
 
         if self.structure == "bottom-up":
             assert self.layer_type == "linsum", "Bottom-up structure only supports LinsumLayer due to handling of padding (not implemented for einsumlayer yet)."
+            assert cardinality == 1, "Bottom-up structure does not support multivariate leaves (cardinality > 1)."
 
         # Get minimum number of features present at the lowest layer (num_features is the actual input dimension,
         # cardinality in multivariate distributions reduces this dimension since it merges groups of size #cardinality)
-- 
2.43.0


From ef6af26b0001a787ae76a3e2d7c54ff88bd306f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 21/32] fix: MultivariateNormal accepted a number of features
 that its cardinality does not divide

---
 simple_einet/layers/distributions/multivariate_normal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/layers/distributions/multivariate_normal.py b/simple_einet/layers/distributions/multivariate_normal.py
index efea9d7..c49f77d 100644
--- a/simple_einet/layers/distributions/multivariate_normal.py
+++ b/simple_einet/layers/distributions/multivariate_normal.py
@@ -40,6 +40,9 @@ class MultivariateNormal(AbstractLeaf):
 
         """
         super().__init__(num_features, num_channels, num_leaves, num_repetitions, cardinality)
+        assert (
+            num_features % cardinality == 0
+        ), f"Number of features ({num_features}) must be divisible by the cardinality ({cardinality})."
         self._pad_value = num_features % cardinality
         self.out_features = np.ceil(num_features / cardinality).astype(int)
 
-- 
2.43.0


From 9ea894aabf494ccd46224d8e09fe9cc29e385d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 22/32] fix: FactorizedLeaf samples with the identity mapping
 that its forward pass uses when no features are merged

---
 simple_einet/layers/factorized_leaf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index f41336a..00426d3 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -53,7 +53,11 @@ class FactorizedLeaf(AbstractLayer):
         # Construct mapping of scopes from in_features -> out_features
         scopes = torch.zeros(num_features, self.num_features_out, num_repetitions)
         for r in range(num_repetitions):
-            idxs = torch.randperm(n=self.num_features)
+            if self.num_features == self.num_features_out:
+                # Nothing to merge: the forward pass maps each feature to itself
+                idxs = torch.arange(self.num_features)
+            else:
+                idxs = torch.randperm(n=self.num_features)
             offset = 0
             for o in range(num_features_out):
                 group_size = group_sizes[o]
-- 
2.43.0


From cc3f8fcf2b2295936e398cddb68cc8e40612fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 23/32] fix: categorical leaves support all 2^n_bits levels of
 n-bit data

---
 simple_einet/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/dist.py b/simple_einet/dist.py
index 9181db8..66b2bb5 100644
--- a/simple_einet/dist.py
+++ b/simple_einet/dist.py
@@ -92,7 +92,7 @@ def get_distribution(dist: Dist, cfg):
         leaf_kwargs = {"total_count": 2**cfg.n_bits - 1}
     elif dist == Dist.CATEGORICAL:
         leaf_type = Categorical
-        leaf_kwargs = {"num_bins": 2**cfg.n_bits - 1}
+        leaf_kwargs = {"num_bins": 2**cfg.n_bits}
     elif dist == Dist.MULTIVARIATE_NORMAL:
         leaf_type = MultivariateNormal
         leaf_kwargs = {"cardinality": cfg.multivariate_cardinality}
-- 
2.43.0


From 2106b0c829e68593d20bbcefe1ee433383c02d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 24/32] fix: bits per dimension of discrete models do not
 subtract a bin width

---
 simple_einet/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/utils.py b/simple_einet/utils.py
index 58936ff..e2d518c 100644
--- a/simple_einet/utils.py
+++ b/simple_einet/utils.py
@@ -45,8 +45,8 @@ def calc_bpd(log_p: Tensor, image_shape: Tuple[int, int, int], has_gauss_dist: b
         bpd = (-bpd / (np.log(2) * n_pixels)).mean()
 
     else:
-        bpd = log_p - np.log(n_bins) * n_pixels
-        bpd = (-bpd / (np.log(2) * n_pixels)).mean()
+        # Discrete models already assign a probability to each level, there is no bin width to account for
+        bpd = (-log_p / (np.log(2) * n_pixels)).mean()
 
     return bpd
 
-- 
2.43.0


From d9f59fb068e43f7c95a4d2a9989bf5ab41af050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 25/32] fix: mixtures hand marginalized scopes, seed and leaf
 mode on to their circuits and obey them

---
 simple_einet/mixture.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index b8bab3a..b69da71 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -57,7 +57,7 @@ class Mixture(nn.Module):
 
         data = data.float()  # input has to be [n, d]
         predictions = self._kmeans.fit_predict(data.view(data.shape[0], -1))
-        counts = torch.bincount(predictions)
+        counts = torch.bincount(predictions, minlength=self.n_components)
         self.mixture_weights.data = counts / counts.sum()
 
         self.centroids.data = self._kmeans.centroids
@@ -96,7 +96,7 @@ class Mixture(nn.Module):
         data_idxs_all = []
         for cluster_idx, data_list in separated_data.items():
             data_tensor = torch.stack(data_list, dim=0)
-            lls = self.models[cluster_idx](data_tensor)
+            lls = self.models[cluster_idx](data_tensor, marginalized_scopes=marginalized_scope)
 
             data_idxs = separated_idxs[cluster_idx]
             for data_idx, ll in zip(data_idxs, lls):
@@ -139,15 +139,20 @@ class Mixture(nn.Module):
 
         if is_mpe:
             # Take cluster idx with largest weights
-            cluster_idxs = [self.mixture_weights.argmax().item()]
+            cluster_idxs = [self.mixture_weights.argmax().item()] * num_samples
         else:
             if num_samples_per_cluster is not None:
                 cluster_idxs = torch.arange(self.n_components).repeat_interleave(num_samples_per_cluster).tolist()
             else:
-                # Sample from categorical over weights
+                # Sample from categorical over weights (with the given seed, if any)
+                if seed is not None:
+                    rng_state = torch.get_rng_state()
+                    torch.manual_seed(seed)
                 cluster_idxs = (
                     torch.distributions.Categorical(probs=self.mixture_weights).sample((num_samples,)).tolist()
                 )
+                if seed is not None:
+                    torch.set_rng_state(rng_state)
 
         if evidence is None:
             # Sample without evidence
@@ -195,6 +200,8 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
+                    seed=seed,
+                    mpe_at_leaves=mpe_at_leaves,
                 )
 
                 evidence_idxs = separated_idxs[cluster_idx]
-- 
2.43.0


From 1b9941bce715f3906ef141df114cddfd3821fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 26/32] fix: SumConv normalises selected weights over the input
 channels

---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 6ce7473..838b50a 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -262,7 +262,7 @@ class SumConv(nn.Module):
         logits = logits.permute(0, 1, 2, 4, 3, 5)  # 0 1 2 4 3 5 -> 0 1 2 3 4 5
         logits = logits.contiguous().view(N, Ci, H, W)
 
-        log_weights = logits_to_log_weights(logits, dim=2, temperature=ctx.temperature_sums)
+        log_weights = logits_to_log_weights(logits, dim=1, temperature=ctx.temperature_sums)
         return log_weights
         log_weights_2 = log_weights
 
-- 
2.43.0


From b88c87c62a7834771914704cef04f8378ed5ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 27/32] fix: evidence sampling of convolutional circuits runs
 the forward pass and restores caches and RNG state

---
 simple_einet/conv_pc.py | 62 +++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 838b50a..28eb9b4 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -86,6 +86,7 @@ class SamplingContext:
 def sampling_context(
     model: nn.Module,
     evidence: torch.Tensor | None = None,
+    marginalized_scopes: List[int] | None = None,
     requires_grad=False,
     seed=None,
 ):
@@ -115,29 +116,31 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in model.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = model.log_likelihood(x=evidence)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
-        if evidence is not None:
-            for module in model.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._disable_input_cache()
-
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+    try:
+        # Run forward pass in given context
+        with context():
+            try:
+                if evidence is not None:
+                    # Enter
+                    for module in model.modules():
+                        if hasattr(module, "_enable_input_cache"):
+                            module._enable_input_cache()
+
+                    _ = model(evidence, marginalized_scopes)
+
+                # Run in context (nothing needs to be yielded)
+                yield
+            finally:
+                # Exit (also if the forward pass or the body of the context fails)
+                if evidence is not None:
+                    for module in model.modules():
+                        if hasattr(module, "_enable_input_cache"):
+                            module._disable_input_cache()
+    finally:
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 class SumConv(nn.Module):
@@ -628,9 +631,9 @@ class ConvPc(nn.Module):
         """Small hack to obtain the current device."""
         return next(self.parameters()).device
 
-    def _forward_leaf_data(self, x):
+    def _forward_leaf_data(self, x, marginalized_scopes: List[int] | None = None):
         x = x.view(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
-        x = self.leaf_data(x, marginalized_scopes=None)
+        x = self.leaf_data(x, marginalized_scopes=marginalized_scopes)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
         )
@@ -646,9 +649,9 @@ class ConvPc(nn.Module):
 
         return x
 
-    def forward(self, x: torch.Tensor | None = None):
+    def forward(self, x: torch.Tensor | None = None, marginalized_scopes: List[int] | None = None):
         # Apply leaf distributions (replace marginalization indicators with 0.0 first)
-        x = self._forward_leaf_data(x)
+        x = self._forward_leaf_data(x, marginalized_scopes)
 
         for layer in self.layers:
             x = layer(x)
@@ -697,6 +700,7 @@ class ConvPc(nn.Module):
         with sampling_context(
             self,
             evidence=evidence,
+            marginalized_scopes=marginalized_scopes,
             requires_grad=True,
             seed=seed,
         ):
@@ -727,6 +731,10 @@ class ConvPc(nn.Module):
             shape_evidence = evidence.shape
             evidence = evidence.view_as(samples)
             mask = torch.isnan(evidence)
+            if marginalized_scopes is not None:
+                marginalized = torch.zeros(HW, dtype=torch.bool, device=mask.device)
+                marginalized[marginalized_scopes] = True
+                mask = mask | marginalized.view(self.data_shape.height, self.data_shape.width)
             evidence[mask] = samples[mask].to(evidence.dtype)
             evidence = evidence.view(shape_evidence)
 
-- 
2.43.0


From 263be2aee43a0c7528ccae6cac84ca637cf1535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 28/32] fix: fmnist-16 and digits are catalogued but could not
 be loaded / had no class count

---
 simple_einet/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index eac31dd..a6a02f5 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -153,6 +153,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         "covtype": 7,
         "breast_cancer": 2,
         "wine": 3,
+        "digits": 10,
     }[dataset_name]
 
 
@@ -492,7 +493,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         dataset_val = torch.utils.data.TensorDataset(torch.tensor(X_val), torch.tensor(y_val))
         dataset_test = torch.utils.data.TensorDataset(torch.tensor(X_test), torch.tensor(y_test))
 
-    elif dataset_name == "fmnist" or dataset_name == "fmnist-32":
+    elif dataset_name == "fmnist" or dataset_name == "fmnist-32" or dataset_name == "fmnist-16":
         if normalize:
             transform.transforms.append(transforms.Normalize([0.5], [0.5]))
 
-- 
2.43.0


From 3dbe20d566a95d442c7dab69a1b594250a401537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 29/32] fix: svhn and lsun split lengths always sum up to the
 number of rows

---
 simple_einet/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index a6a02f5..5b5d74f 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -537,7 +537,8 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         dataset_train = SVHN(**kwargs, split="train")
 
         N = len(dataset_train.data)
-        lenghts = [round(N * 0.9), round(N * 0.1)]
+        N_train = round(N * 0.9)
+        lenghts = [N_train, N - N_train]
 
         dataset_train, dataset_val = random_split(dataset_train, lengths=lenghts, generator=split_generator)
         dataset_test = SVHN(**kwargs, split="test")
@@ -560,7 +561,8 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         dataset_test = LSUN(**kwargs, classes=["church_outdoor_val"])
 
         N = dataset_train.length
-        lenghts = [round(N * 0.9), round(N * 0.1)]
+        N_train = round(N * 0.9)
+        lenghts = [N_train, N - N_train]
         dataset_train, dataset_val = random_split(dataset_train, lengths=lenghts, generator=split_generator)
 
     elif dataset_name == "fake":
-- 
2.43.0


From 147c0f3ea7cfd61349ccd2a5533bc889e85e02d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 30/32] fix: synthetic data sets are drawn once, reproducibly,
 and split into disjoint parts; class counts follow the labels

---
 simple_einet/data.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 5b5d74f..548b09d 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -124,7 +124,12 @@ def get_data_num_classes(dataset_name: str) -> int:
         int: Number of classes.
     """
     if "synth" in dataset_name:
-        return 2
+        return {
+            "synth-3-clusters": 3,
+            "synth-9-clusters": 9,
+            "synth-aniso": 3,
+            "synth-varied": 3,
+        }.get(dataset_name, 2)
 
     if dataset_name in DEBD:
         return 0
@@ -205,7 +210,7 @@ def generate_data(dataset_name: str, n_samples: int = 1000) -> Tuple[torch.Tenso
         data, y = datasets.make_moons(n_samples=n_samples, noise=0.1, random_state=0)
 
     elif tag == "circles":
-        data, y = datasets.make_circles(n_samples=n_samples, factor=0.5, noise=0.05)
+        data, y = datasets.make_circles(n_samples=n_samples, factor=0.5, noise=0.05, random_state=0)
 
     elif tag == "aniso":
         # Anisotropicly distributed data
@@ -385,17 +390,17 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
 
     # Select the datasets
     if "synth" in dataset_name:
+        # Draw once and split, such that train, val and test don't share any samples
+        X, labels = generate_data(dataset_name, n_samples=5000)
+
         # Train
-        X, labels = generate_data(dataset_name, n_samples=3000)
-        dataset_train = torch.utils.data.TensorDataset(X, labels)
+        dataset_train = torch.utils.data.TensorDataset(X[:3000], labels[:3000])
 
         # Val
-        X, labels = generate_data(dataset_name, n_samples=1000)
-        dataset_val = torch.utils.data.TensorDataset(X, labels)
+        dataset_val = torch.utils.data.TensorDataset(X[3000:4000], labels[3000:4000])
 
         # Test
-        X, labels = generate_data(dataset_name, n_samples=1000)
-        dataset_test = torch.utils.data.TensorDataset(X, labels)
+        dataset_test = torch.utils.data.TensorDataset(X[4000:], labels[4000:])
 
     elif dataset_name == "mnist" or dataset_name == "mnist-32" or dataset_name == "mnist-16":
         if normalize:
-- 
2.43.0


From 7f4f29851df921bd4206e0358720c9488f36b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 31/32] fix: scale discrete training data to the levels of the
 leaves without writing into the batch

preprocess() multiplied the caller's batch by 255 in place (a batch passed twice was
scaled twice), ignored n_bits (values above the leaves' total_count) and left data for
categorical leaves in [0, 1], where every value is level 0.
---
 models_pl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/models_pl.py b/models_pl.py
index 57fcfeb..738cc00 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -119,8 +119,9 @@ class LitModel(pl.LightningModule, ABC):
 
     def preprocess(self, data: torch.Tensor):
         """Preprocess data before passing it to the model."""
-        if self.cfg.dist == Dist.BINOMIAL:
-            data *= 255.0
+        if self.cfg.dist in (Dist.BINOMIAL, Dist.CATEGORICAL):
+            # Scale to the discrete levels of the leaves (out-of-place since the batch belongs to the caller)
+            data = torch.round(data * (2**self.cfg.n_bits - 1))
 
         return data
 
-- 
2.43.0


From 36cfffb802cb601d973c2357dbbc0b488398c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 32/32] fix: piecewise linear leaves sample domain values and
 tolerate empty clusters

Discrete samples were bin indices instead of values of the domain, the mixture weights
could not be stored when the last cluster is empty, and an empty cluster of a continuous
variable resulted in NaN densities.
---
 .../layers/distributions/piecewise_linear.py  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index a7f54eb..4633657 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -92,7 +92,7 @@ class PiecewiseLinear(AbstractLeaf):
             kmeans.fit(data.view(data.shape[0], -1).float())
 
             predictions = kmeans.predict(data.view(data.shape[0], -1).float())
-            counts = torch.bincount(predictions)
+            counts = torch.bincount(predictions, minlength=self.num_leaves)
             self.mixture_weights[i_repetition] = counts / counts.sum()
 
             # Get cluster assigments for each datapoint
@@ -135,10 +135,14 @@ class PiecewiseLinear(AbstractLeaf):
                             # Find histogram bins using numpys "auto" logic
                             bins, _ = _get_bin_edges_torch(data_subset)
 
-                            # Construct histogram
-                            densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
-                                data.device
-                            )
+                            if data_subset.shape[0] == 0:
+                                # If there is no data in this cluster, set the density to uniform
+                                densities = torch.ones(len(bins) - 1, device=data.device) / (len(bins) - 1)
+                            else:
+                                # Construct histogram
+                                densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
+                                    data.device
+                                )
                             breaks = bins
                             mids = ((breaks + torch.roll(breaks, shifts=-1, dims=0)) / 2)[:-1]
                         else:
@@ -319,7 +323,10 @@ class PiecewiseLinearDist:
                             # Sample from a categorical distribution
                             ys_i_wo_tails = ys_i[1:-1]  # Cut off the tail breaks
                             dist = torch.distributions.Categorical(probs=ys_i_wo_tails)
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = dist.sample(sample_shape)
+                            # Map the sampled bin indices to the values of the domain
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = xs_i[1:-1][
+                                dist.sample(sample_shape)
+                            ]
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Compute the CDF for this piecewise function
                             cdf = self._compute_cdf(xs_i, ys_i)
-- 
2.43.0

