From 3df616634acc80f5ec49b3f3d96818ce1de40154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 01/22] fix: accumulate the statistics GaussianHMM needs to
 update covars_ alone

With 'c' but not 'm' in params, stats['post'] and stats['obs'] were left at
zero, so the covariance update divided the (uncentered) second moments by
zero (or 1e-5).
---
 src/hmmlearn/hmm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index fec0a13..f9fd072 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -332,7 +332,9 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
 
     def _needs_sufficient_statistics_for_mean(self):
-        return 'm' in self.params
+        # The M-step for the covariances also needs the 'post' and 'obs'
+        # statistics.
+        return 'm' in self.params or 'c' in self.params
 
     def _needs_sufficient_statistics_for_covars(self):
         return 'c' in self.params
-- 
2.43.0


From 937dab7ff5059f40e421aba0327d17a0547c50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 02/22] fix: use the flat default prior for spherical GMMHMM
 covariances

The M-step divides by nf * (post + 1) + 2 * (covars_prior + 1), so the flat
prior is -(n_features + 2) / 2; with n_mix instead, variances were biased and
could become negative when n_mix > n_features.
---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index f9fd072..9d29f81 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -610,7 +610,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_weight = 0.0
         elif self.covariance_type == "spherical":
             if self.covars_prior is None:
-                self.covars_prior = -(self.n_mix + 2.0) / 2.0
+                self.covars_prior = -(self.n_features + 2.0) / 2.0
             if self.covars_weight is None:
                 self.covars_weight = 0.0
 
-- 
2.43.0


From 44f48b42120960b5225f2384cf5e75f8e75c1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 03/22] fix: count the mixture weights of every state in GMMHMM
 aic/bic

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index a697c11..dd21edb 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -197,7 +197,7 @@ class BaseGMMHMM(BaseHMM):
                 "full": nc * nm * nf * (nf + 1) // 2,
                 "tied": nc * nf * (nf + 1) // 2,
             }[self.covariance_type],
-            "w": nm - 1,
+            "w": nc * (nm - 1),
         }
 
     def _compute_log_weighted_gaussian_densities(self, X, i_comp):
-- 
2.43.0


From 8fd97e80b03dcb7200e021cea8c745ddce47a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 04/22] fix: draw GMMHMM's initial means from the model's
 random_state

When a cluster has fewer than n_mix points its means were drawn from the
global numpy generator, so fits with a fixed seed were not reproducible.
---
 src/hmmlearn/hmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 9d29f81..1d81a0b 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -550,6 +550,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                                      n_init=10)  # sklearn >=1.2 compat.
         cv = None  # covariance matrix
         labels = main_kmeans.fit_predict(X)
+        random_state = check_random_state(self.random_state)
         main_centroid = np.mean(main_kmeans.cluster_centers_, axis=0)
         means = []
         for label in range(nc):
@@ -563,9 +564,9 @@ class GMMHMM(_emissions.BaseGMMHMM):
             else:
                 if cv is None:
                     cv = compute_cv()
-                m_cluster = np.random.multivariate_normal(main_centroid,
-                                                          cov=cv,
-                                                          size=nm)
+                m_cluster = random_state.multivariate_normal(main_centroid,
+                                                             cov=cv,
+                                                             size=nm)
                 means.append(m_cluster)
 
         if self._needs_init("w", "weights_"):
-- 
2.43.0


From 91ed15b64269150b06a26b2a0b10bc7b1b6f33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 05/22] fix: do not replace the random_state hyperparameter
 during fit

CategoricalHMM, MultinomialHMM and PoissonHMM rebound self.random_state to a
generator, so fitting an estimator again with the same integer seed started
from a different point.
---
 src/hmmlearn/hmm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 1d81a0b..d51090a 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -128,10 +128,10 @@ class CategoricalHMM(_emissions.BaseCategoricalHMM, BaseHMM):
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
 
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         if self._needs_init('e', 'emissionprob_'):
-            self.emissionprob_ = self.random_state.rand(
+            self.emissionprob_ = random_state.rand(
                 self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -920,9 +920,9 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths=None)
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
         if 'e' in self.init_params:
-            self.emissionprob_ = self.random_state \
+            self.emissionprob_ = random_state \
                 .rand(self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -1039,14 +1039,14 @@ class PoissonHMM(_emissions.BasePoissonHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         mean_X = X.mean()
         var_X = X.var()
 
         if self._needs_init("l", "lambdas_"):
             # initialize with method of moments based on X
-            self.lambdas_ = self.random_state.gamma(
+            self.lambdas_ = random_state.gamma(
                 shape=mean_X**2 / var_X,
                 scale=var_X / mean_X,  # numpy uses theta = 1 / beta
                 size=(self.n_components, self.n_features))
-- 
2.43.0


From 5902340d96cb06c78b750a81ce9d59eb46300904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 06/22] fix: reject empty sequences in the native kernels
 instead of indexing out of bounds

---
 ext/_hmmc.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 3a4a1d3..068aa8f 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -54,7 +54,8 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
   auto transmat = transmat_.unchecked<2>();
   auto frameprob = frameprob_.unchecked<2>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
-  if (startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
@@ -112,7 +113,8 @@ std::tuple<double, py::array_t<double>> forward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (log_startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
@@ -148,7 +150,8 @@ py::array_t<double> backward_scaling(
   auto frameprob = frameprob_.unchecked<2>();
   auto scaling = scaling_.unchecked<1>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
-  if (startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc
       || scaling.shape(0) != ns) {
     throw std::invalid_argument{"shape mismatch"};
@@ -182,7 +185,8 @@ py::array_t<double> backward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (log_startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
@@ -215,7 +219,8 @@ py::array_t<double> compute_scaling_xi_sum(
   auto bwd = bwdlattice_.unchecked<2>();
   auto frameprob = frameprob_.unchecked<2>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
-  if (fwd.shape(0) != ns || fwd.shape(1) != nc
+  if (ns < 1 || nc < 1
+      || fwd.shape(0) != ns || fwd.shape(1) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc
       || bwd.shape(0) != ns || bwd.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -249,7 +254,8 @@ py::array_t<double> compute_log_xi_sum(
   auto bwd = bwdlattice_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (fwd.shape(0) != ns || fwd.shape(1) != nc
+  if (ns < 1 || nc < 1
+      || fwd.shape(0) != ns || fwd.shape(1) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc
       || bwd.shape(0) != ns || bwd.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -286,7 +292,8 @@ std::tuple<double, py::array_t<ssize_t>> viterbi(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (log_startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
-- 
2.43.0


From 4ccab5cd7d1f44f1ea21bede3028ec8c1c398315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 07/22] fix: weight the Gamma prior of PoissonHMM by each
 state's own count

---
 src/hmmlearn/hmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index d51090a..042bbb6 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1069,10 +1069,10 @@ class PoissonHMM(_emissions.BasePoissonHMM):
             # section 3.2
             # https://vioshyvo.github.io/Bayesian_inference
             alphas, betas = self.lambdas_prior, self.lambdas_weight
-            n = stats['post'].sum()
-            y_bar = stats['obs'] / stats['post'][:, None]
+            n = stats['post'][:, None]
             # the same as kappa notation (more intuitive) but avoids divide by
             # 0, where:
+            # y_bar = stats['obs'] / n
             # kappas = betas / (betas + n)
             # self.lambdas_ = kappas * (alphas / betas) + (1 - kappas) * y_bar
-            self.lambdas_ = (alphas + n * y_bar) / (betas + n)
+            self.lambdas_ = (alphas + stats['obs']) / (betas + n)
-- 
2.43.0


From 1fbbc83dd2ca01cffd381f1ce73902ef6b0a5427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 08/22] fix: set the point estimates of variational models
 whatever params lists

---
 src/hmmlearn/base.py | 12 ++++++------
 src/hmmlearn/vhmm.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 580b71a..5791c85 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1230,14 +1230,14 @@ class VariationalBaseHMM(_AbstractHMM):
         """
         if 's' in self.params:
             self.startprob_posterior_ = self.startprob_prior_ + stats['start']
-            # For compatability in _AbstractHMM
-            self.startprob_ = (self.startprob_posterior_
-                               / self.startprob_posterior_.sum())
+        # For compatability in _AbstractHMM
+        self.startprob_ = (self.startprob_posterior_
+                           / self.startprob_posterior_.sum())
         if 't' in self.params:
             self.transmat_posterior_ = self.transmat_prior_ + stats['trans']
-            # For compatability in _AbstractHMM
-            self.transmat_ = (self.transmat_posterior_
-                              / self.transmat_posterior_.sum(axis=1)[:, None])
+        # For compatability in _AbstractHMM
+        self.transmat_ = (self.transmat_posterior_
+                          / self.transmat_posterior_.sum(axis=1)[:, None])
 
     def _compute_lower_bound(self, curr_logprob):
         """
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 32f7bef..e4b6583 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -212,9 +212,9 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
         if "e" in self.params:
             self.emissionprob_posterior_ = (
                 self.emissionprob_prior_ + stats['obs'])
-            # Provide the normalized probabilities at the posterior median
-            div = self.emissionprob_posterior_.sum(axis=1)[:, None]
-            self.emissionprob_ = self.emissionprob_posterior_ / div
+        # Provide the normalized probabilities at the posterior median
+        div = self.emissionprob_posterior_.sum(axis=1)[:, None]
+        self.emissionprob_ = self.emissionprob_posterior_ / div
 
     def _compute_lower_bound(self, log_prob):
         """Compute the lower bound of the model."""
-- 
2.43.0


From d303eebc44925563c5e1a4037f558115dd0087bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 09/22] fix: initialize MultinomialHMM's emissionprob_ when it
 is unset

---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 042bbb6..bdd4cf8 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -921,7 +921,7 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
     def _init(self, X, lengths=None):
         super()._init(X, lengths=None)
         random_state = check_random_state(self.random_state)
-        if 'e' in self.init_params:
+        if self._needs_init("e", "emissionprob_"):
             self.emissionprob_ = random_state \
                 .rand(self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
-- 
2.43.0


From 0299be14fbe1d533a79294322af22e1c1e20db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 10/22] fix: never sample zero-probability states or symbols
 due to rounding

---
 src/hmmlearn/_emissions.py | 1 +
 src/hmmlearn/base.py       | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index dd21edb..2283377 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -105,6 +105,7 @@ class BaseCategoricalHMM(_AbstractHMM):
 
     def _generate_sample_from_state(self, state, random_state=None):
         cdf = np.cumsum(self.emissionprob_[state, :])
+        cdf = cdf / cdf[-1]
         random_state = check_random_state(random_state)
         return [(cdf > random_state.rand()).argmax()]
 
diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 5791c85..c8c11ba 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -432,9 +432,11 @@ class _AbstractHMM(BaseEstimator):
         random_state = check_random_state(random_state)
 
         transmat_cdf = np.cumsum(self.transmat_, axis=1)
+        transmat_cdf = transmat_cdf / transmat_cdf[:, [-1]]
 
         if currstate is None:
             startprob_cdf = np.cumsum(self.startprob_)
+            startprob_cdf = startprob_cdf / startprob_cdf[-1]
             currstate = (startprob_cdf > random_state.rand()).argmax()
 
         state_sequence = [currstate]
-- 
2.43.0


From f1d9cce0e1249f0dbfc7d202c43557155fbac322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 11/22] fix: reject negative symbols when scoring with
 CategoricalHMM

---
 src/hmmlearn/_emissions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 2283377..e97e7b6 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -81,6 +81,8 @@ class BaseCategoricalHMM(_AbstractHMM):
             warnings.warn("Inputs of shape other than (n_samples, 1) are "
                           "deprecated.", DeprecationWarning)
             X = np.concatenate(X)[:, None]
+        if (X < 0).any():
+            raise ValueError("Symbols should be nonnegative")
         return self.emissionprob_[:, X.squeeze(1)].T
 
     def _initialize_sufficient_statistics(self):
-- 
2.43.0


From a984c48663dccb5bfbfc3149b4a765e97ea050a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 12/22] fix: do not fail an assertion on divergences that round
 below zero

---
 src/hmmlearn/_kl_divergence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/_kl_divergence.py b/src/hmmlearn/_kl_divergence.py
index 5fbdb7c..bceec9f 100644
--- a/src/hmmlearn/_kl_divergence.py
+++ b/src/hmmlearn/_kl_divergence.py
@@ -31,8 +31,7 @@ def kl_normal_distribution(mean_q, variance_q, mean_p, variance_p):
     result = ((np.log(variance_p / variance_q)) / 2
               + ((mean_q - mean_p)**2 + variance_q) / (2 * variance_p)
               - .5)
-    assert result >= 0, result
-    return result
+    return max(result, 0.)  # The exact value is never negative.
 
 
 def kl_multivariate_normal_distribution(mean_q, covar_q, mean_p, covar_p):
@@ -73,8 +72,7 @@ def kl_gamma_distribution(b_q, c_q, b_p, c_p):
               - gammaln(b_q) + gammaln(b_p)
               + b_p * (np.log(c_q) - np.log(c_p))
               + b_q * (c_p-c_q) / c_q)
-    assert result >= 0, result
-    return result
+    return max(result, 0.)  # The exact value is never negative.
 
 
 def kl_wishart_distribution(dof_q, scale_q, dof_p, scale_p):
-- 
2.43.0


From 3df0b2264e7239171a8e8523112563da42f146e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 13/22] fix: one full covariance per state for fitted spherical
 models

---
 src/hmmlearn/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/utils.py b/src/hmmlearn/utils.py
index a080e56..c93237e 100644
--- a/src/hmmlearn/utils.py
+++ b/src/hmmlearn/utils.py
@@ -63,9 +63,10 @@ def fill_covars(covars, covariance_type='full', n_components=1, n_features=1):
     elif covariance_type == 'tied':
         return np.tile(covars, (n_components, 1, 1))
     elif covariance_type == 'spherical':
-        # Regardless of what is passed in, we flatten in
-        # and then expand it to the correct shape
-        covars = np.ravel(covars)
+        # Regardless of what is passed in (fitting stores each state's variance
+        # once per feature), we keep one variance per state and then expand it
+        # to the correct shape
+        covars = np.reshape(covars, (n_components, -1))[:, 0]
         eye = np.eye(n_features)[np.newaxis, :, :]
         covars = covars[:, np.newaxis, np.newaxis]
         return eye * covars
-- 
2.43.0


From 08d9880309732128b897878cdf94014528787ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 14/22] fix: reject non-positive sequence lengths

---
 src/hmmlearn/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index 9f257d2..11822e2 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -18,6 +18,8 @@ def split_X_lengths(X, lengths):
     if lengths is None:
         return [X]
     else:
+        if (np.asarray(lengths) < 1).any():
+            raise ValueError(f"lengths array {lengths} must be positive")
         cs = np.cumsum(lengths)
         n_samples = len(X)
         if cs[-1] != n_samples:
-- 
2.43.0


From 1bd994790ed8aea864f9428da06281e77629c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 15/22] fix: read the forward lattice in C order in
 compute_log_xi_sum

The last row of fwdlattice was read through a raw pointer assuming C order:
an array with negative or non-unit strides made it read outside the array.
---
 ext/_hmmc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 068aa8f..44dbc1f 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -243,7 +243,8 @@ py::array_t<double> compute_scaling_xi_sum(
 }
 
 py::array_t<double> compute_log_xi_sum(
-  py::array_t<double> fwdlattice_,
+  // c_style, as the last row is also accessed through a raw pointer.
+  py::array_t<double, py::array::c_style | py::array::forcecast> fwdlattice_,
   py::array_t<double> transmat_,
   py::array_t<double> bwdlattice_,
   py::array_t<double> log_frameprob_)
-- 
2.43.0


From ca19bb48f0729291d335a7512444668f39415a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:53 +0000
Subject: [PATCH 16/22] fix: GMMHMM trains with integer-typed parameters and
 priors

The mean and covariance statistics took the element type of the priors and
of covars_, so that accumulating into them failed with a UFuncTypeError when
these were integers.
---
 src/hmmlearn/_emissions.py | 4 ++--
 src/hmmlearn/hmm.py        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index e97e7b6..e5851d1 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -229,9 +229,9 @@ class BaseGMMHMM(BaseHMM):
 
         if 'm' in self.params:
             lambdas, mus = self.means_weight, self.means_prior
-            stats['m_n'] = lambdas[:, :, None] * mus
+            stats['m_n'] = np.asarray(lambdas[:, :, None] * mus, dtype=float)
         if 'c' in self.params:
-            stats['c_n'] = np.zeros_like(self.covars_)
+            stats['c_n'] = np.zeros_like(self.covars_, dtype=float)
 
         # These statistics are stored in arrays and updated in-place.
         # We accumulate chunks of data for multiple sequences (aka
diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index bdd4cf8..a1e7458 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -773,7 +773,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 nus = self.covars_weight
 
                 c_n = psis_t + lambdas[:, :, None, None] * centered_means_dots
-                c_n += stats['c_n']
+                c_n = c_n + stats['c_n']
                 c_d = (
                     stats['post_mix_sum'] + 1 + nus + nf + 1
                 )[:, :, None, None]
@@ -784,7 +784,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 centered_means2 = centered_means ** 2
 
                 c_n = lambdas[:, :, None] * centered_means2 + 2 * betas
-                c_n += stats['c_n']
+                c_n = c_n + stats['c_n']
                 c_d = stats['post_mix_sum'][:, :, None] + 1 + 2 * (alphas + 1)
 
             elif self.covariance_type == 'spherical':
@@ -795,7 +795,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 betas = self.covars_weight
 
                 c_n = lambdas * centered_means_norm2 + 2 * betas
-                c_n += stats['c_n']
+                c_n = c_n + stats['c_n']
                 c_d = nf * (stats['post_mix_sum'] + 1) + 2 * (alphas + 1)
 
             elif self.covariance_type == 'tied':
@@ -806,7 +806,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
                 c_n = np.einsum('ij,ijkl->ikl',
                                 lambdas, centered_means_dots) + psis_t
-                c_n += stats['c_n']
+                c_n = c_n + stats['c_n']
                 c_d = (stats['post_sum'] + nm + nus + nf + 1)[:, None, None]
 
             self.covars_ = c_n / c_d
-- 
2.43.0


From a5d10de40819fd911a6012c7ba7fe2bf7a80a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 17/22] fix: VariationalGaussianHMM checks its start and
 transition priors

Its _check did not call the base class's, so wrong-shaped priors and
posteriors of the chain were accepted (and broadcast).
---
 src/hmmlearn/vhmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index e4b6583..6a4b936 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -595,6 +595,8 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
             raise ValueError(
                 f"{self.covariance_type} is invalid")
 
+        super()._check()
+
         means_shape = (self.n_components, self.n_features)
 
         self.means_prior_ = np.asarray(self.means_prior_, dtype=float)
-- 
2.43.0


From f081af61e75352ddb7419e19d3f5162224838b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 18/22] fix: square narrow observations in floating point in
 the E-step

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index e5851d1..50184fd 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -157,7 +157,7 @@ class BaseGaussianHMM(_AbstractHMM):
 
         if self._needs_sufficient_statistics_for_covars():
             if self.covariance_type in ('spherical', 'diag'):
-                stats['obs**2'] += posteriors.T @ X**2
+                stats['obs**2'] += posteriors.T @ X.astype(float)**2
             elif self.covariance_type in ('tied', 'full'):
                 # posteriors: (nt, nc); obs: (nt, nf); obs: (nt, nf)
                 # -> (nc, nf, nf)
-- 
2.43.0


From f18f2943e6dbb080b46f597769b798b3c2763e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 19/22] fix: count the symbols of narrow integer data without
 overflow

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 50184fd..1286899 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -65,7 +65,7 @@ class BaseCategoricalHMM(_AbstractHMM):
                     f"Largest symbol is {X.max()} but the model only emits "
                     f"symbols up to {self.n_features - 1}")
         else:
-            self.n_features = X.max() + 1
+            self.n_features = int(X.max()) + 1
 
     def _get_n_fit_scalars_per_param(self):
         nc = self.n_components
-- 
2.43.0


From 3b228b73ee4f3c08446d91429972acfd58995cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 20/22] fix: sum narrow sequence lengths without overflow

---
 src/hmmlearn/base.py | 2 +-
 src/hmmlearn/vhmm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index c8c11ba..a54ca08 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1086,7 +1086,7 @@ class VariationalBaseHMM(_AbstractHMM):
                 (nc, nc), transmat_init)
             self.transmat_posterior_ = random_state.dirichlet(
                 np.full(nc, uniform_prior), size=nc)
-            self.transmat_posterior_ *= sum(lengths) / nc
+            self.transmat_posterior_ *= np.sum(lengths) / nc
 
         n_fit_scalars_per_param = self._get_n_fit_scalars_per_param()
         if n_fit_scalars_per_param is not None:
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 6a4b936..4cc205d 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -155,7 +155,7 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
             self.emissionprob_posterior_ = random_state.dirichlet(
                 alpha=[emissionprob_init] * self.n_features,
                 size=self.n_components
-            ) * sum(lengths) / self.n_components
+            ) * np.sum(lengths) / self.n_components
 
     def _estep_begin(self):
         super()._estep_begin()
-- 
2.43.0


From c1bdc420b8d4477de22f46223090088b3247290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 21/22] fix: AIC and BIC of models whose parameters were set by
 hand

---
 src/hmmlearn/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index a54ca08..6e69bc4 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -999,6 +999,8 @@ class BaseHMM(_AbstractHMM):
         aic : float
             The lower the better.
         """
+        check_is_fitted(self, "startprob_")
+        self._check()  # Also sets n_features, which the count needs.
         n_params = sum(self._get_n_fit_scalars_per_param().values())
         return -2 * self.score(X, lengths=lengths) + 2 * n_params
 
@@ -1023,6 +1025,8 @@ class BaseHMM(_AbstractHMM):
         bic : float
             The lower the better.
         """
+        check_is_fitted(self, "startprob_")
+        self._check()  # Also sets n_features, which the count needs.
         n_params = sum(self._get_n_fit_scalars_per_param().values())
         return -2 * self.score(X, lengths=lengths) + n_params * np.log(len(X))
 
-- 
2.43.0


From fa006fc9f1cbdcfab999db8e3550939daa903a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:55 +0000
Subject: [PATCH 22/22] fix: keep the scaled backward weights of unreachable
 states finite

With the scaling implementation, a state that cannot be reached but that
explains the rest of a long sequence better than the others overflowed the
backward pass, and its infinite weight times a zero forward probability made
the posteriors, and every parameter trained from them, nan.
---
 ext/_hmmc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 44dbc1f..162ebbf 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -168,7 +168,11 @@ py::array_t<double> backward_scaling(
       for (auto j = 0; j < nc; ++j) {
         bwd(t, i) += transmat(i, j) * frameprob(t + 1, j) * bwd(t + 1, j);
       }
-      bwd(t, i) *= scaling(t);
+      // A state that is not reachable can explain the rest of the sequence
+      // arbitrarily better than the others: keep its weight finite, as it is
+      // going to be multiplied by zero.
+      bwd(t, i) = std::min(bwd(t, i) * scaling(t),
+                           std::numeric_limits<double>::max());
     }
   }
   return bwdlattice_;
-- 
2.43.0

