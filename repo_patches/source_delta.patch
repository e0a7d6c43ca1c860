From b7042c37ddf9829bb298ffe90f8b0803b32ee1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 01/34] fix: do not add the log-Jacobian to the stored original
 value of a repeated point

---
 pyvbmc/function_logger/function_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 29cda8b..502021d 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -385,7 +385,7 @@ class FunctionLogger:
                     N + 1
                 )
 
-            f_val = self.y_orig[idx]
+            f_val = self.y_orig[idx].copy()
             if self.transform_parameters:
                 f_val += self.parameter_transformer.log_abs_det_jacobian(x)
             self.y[idx] = f_val
-- 
2.43.0


From d6cca8f054ce6a3501d37c8587f10f7e28f7d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 02/34] fix: keep y_max up to date when a repeated point is
 merged

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 502021d..6bb84e9 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -393,6 +393,7 @@ class FunctionLogger:
                 N * self.fun_eval_time[idx] + fun_eval_time
             ) / (N + 1)
             self.n_evals[idx] += 1
+            self.y_max = np.nanmax(self.y[self.X_flag])
             return f_val, idx
         else:
             self.Xn += 1
-- 
2.43.0


From a04346584ed1f0b59d583646b27d4fe3d33ac339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 03/34] fix: finalize() also drops the unused rows of n_evals

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 6bb84e9..3425138 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -288,6 +288,7 @@ class FunctionLogger:
             self.S = self.S[: self.Xn + 1]
         self.X_flag = self.X_flag[: self.Xn + 1]
         self.fun_eval_time = self.fun_eval_time[: self.Xn + 1]
+        self.n_evals = self.n_evals[: self.Xn + 1]
 
     def _expand_arrays(self, resize_amount: int = None):
         """
-- 
2.43.0


From af61cab23d2f6d05993767f9679f3f92e2156d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:44 +0000
Subject: [PATCH 04/34] fix: reject complex-typed target values and noise
 levels before recording them

---
 pyvbmc/function_logger/function_logger.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 3425138..6b6bb01 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -148,7 +148,7 @@ class FunctionLogger:
         if (
             not np.isscalar(f_val_orig)
             or not np.isfinite(f_val_orig)
-            or not np.isreal(f_val_orig)
+            or not np.isrealobj(f_val_orig)
         ):
             error_message = """FunctionLogger:InvalidFuncValue:
             The returned function value must be a finite real-valued scalar
@@ -159,7 +159,7 @@ class FunctionLogger:
         if self.noise_flag and (
             not np.isscalar(f_sd)
             or not np.isfinite(f_sd)
-            or not np.isreal(f_sd)
+            or not np.isrealobj(f_sd)
             or f_sd <= 0.0
         ):
             error_message = """FunctionLogger:InvalidNoiseValue
@@ -249,7 +249,7 @@ class FunctionLogger:
         if (
             not np.isscalar(f_val_orig)
             or not np.isfinite(f_val_orig)
-            or not np.isreal(f_val_orig)
+            or not np.isrealobj(f_val_orig)
         ):
             error_message = """FunctionLogger:InvalidFuncValue:
             The returned function value must be a finite real-valued scalar
@@ -260,7 +260,7 @@ class FunctionLogger:
         if self.noise_flag and (
             not np.isscalar(f_sd)
             or not np.isfinite(f_sd)
-            or not np.isreal(f_sd)
+            or not np.isrealobj(f_sd)
             or f_sd <= 0.0
         ):
             error_message = """FunctionLogger:InvalidNoiseValue
-- 
2.43.0


From fb06b169c71db405b766e5ddf9937be7b4fc2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 05/34] fix: estimate missing plausible bounds without writing
 into the caller's arrays

---
 pyvbmc/vbmc/vbmc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index d8d6118..f568db3 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -346,8 +346,12 @@ class VBMC:
 
                 idx = plausible_lower_bounds == plausible_upper_bounds
                 if np.any(idx):
-                    plausible_lower_bounds[idx] = lower_bounds[idx]
-                    plausible_upper_bounds[idx] = upper_bounds[idx]
+                    plausible_lower_bounds = np.where(
+                        idx, lower_bounds, plausible_lower_bounds
+                    )
+                    plausible_upper_bounds = np.where(
+                        idx, upper_bounds, plausible_upper_bounds
+                    )
                     self.logger.warning(
                         "vbmc:pbInitFailed: Some plausible bounds could not be "
                         "determined from starting set. Using hard upper/lower"
-- 
2.43.0


From 38f4abee815bfbf81b5bc5f829276628a8bdffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 06/34] fix: warm-up stability check needs a non-empty recent
 window

---
 pyvbmc/vbmc/vbmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index f568db3..848ce63 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1605,7 +1605,8 @@ class VBMC:
         )
 
         # MATLAB has +1 on the right side due to different indexing.
-        if iteration > tol_stable_warmup_iters:
+        # (the recent window below starts from the fourth iteration)
+        if iteration > max(tol_stable_warmup_iters, 2):
             # Vector of ELCBO (ignore first two iterations, ELCBO is unreliable)
             elcbo_vec = self.iteration_history.get("elbo") - self.options.get(
                 "elcbo_impro_weight"
-- 
2.43.0


From dee6afd321b3850e36a5cc9e6d74e8e558326303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 07/34] fix: rank criterion of determine_best_vp works on a
 recorded history (object array)

---
 pyvbmc/vbmc/vbmc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 848ce63..bede912 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2114,9 +2114,8 @@ class VBMC:
 
                 # Rank penalty to all non-stable iterations
                 rank[:, 3] = max_idx
-                rank[
-                    self.iteration_history.get("stable")[: max_idx + 1], 3
-                ] = 1
+                stable = self.iteration_history.get("stable")[: max_idx + 1]
+                rank[stable.astype(bool), 3] = 1
 
                 idx_best = np.argmin(np.sum(rank, 1))
 
-- 
2.43.0


From 9e513bba52c8cc988331e6755e8ce97bb9c79e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 08/34] fix: set_parameters checks the sign of scales and
 weights, not of leading entries

---
 pyvbmc/variational_posterior/variational_posterior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 6334d36..aa522b6 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -704,14 +704,14 @@ class VariationalPosterior:
 
         # check if sigma, lambda and weights are positive when raw_flag = False
         if not raw_flag:
-            check_idx = 0
+            check_idx = theta.size
             if self.optimize_weights:
                 check_idx -= self.K
             if self.optimize_lambd:
                 check_idx -= self.D
             if self.optimize_sigma:
                 check_idx -= self.K
-            if np.any(theta[-check_idx:] < 0.0):
+            if np.any(theta[check_idx:] < 0.0):
                 raise ValueError(
                     """sigma, lambda and weights must be positive
                     when raw_flag = False"""
-- 
2.43.0


From 2ac07e842208c0f77b9e1d79f2a0b43936c47be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:20 +0000
Subject: [PATCH 09/34] fix: evaluate the posterior density of integer-typed
 points in floating point

---
 pyvbmc/variational_posterior/variational_posterior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index aa522b6..b2af28d 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -422,7 +422,8 @@ class VariationalPosterior:
             `grad_flag` = ``True`` (gradient computation of the log-pdf in the
             original space is not supported yet).
         """
-        x = x.copy()
+        # Copy in floating point (integer inputs would truncate below)
+        x = x.astype(float)
         N, D = x.shape
 
         # compute pdf only for points inside bounds in origspace
-- 
2.43.0


From 95b542ac112b458cfa7938e867690fab292bf573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:58 +0000
Subject: [PATCH 10/34] fix: balanced sampling draws the remainder with the
 fractional parts of the expected counts

---
 pyvbmc/variational_posterior/variational_posterior.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index b2af28d..568beaa 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -301,12 +301,11 @@ class VariationalPosterior:
                     # compute remainder samples (with correct weights) if needed
                     if N > i.shape[0]:
                         w_extra = self.w * N - repeats
-                        repeats_extra = np.ceil(np.sum(w_extra))
-                        w_extra += self.w * (repeats_extra - sum(w_extra))
+                        repeats_extra = N - i.shape[0]
                         w_extra /= np.sum(w_extra)
                         i_extra = np.random.choice(
                             range(self.K),
-                            size=repeats_extra.astype("int"),
+                            size=repeats_extra,
                             p=w_extra.ravel(),
                         )
                         i = np.append(i, i_extra)
-- 
2.43.0


From 4f35c44e4fc19b5514d0bb6c5b8cb12a481746a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:58 +0000
Subject: [PATCH 11/34] fix: gaussianized KL divergence from samples uses the
 mean of each variable

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 568beaa..eba67c3 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1100,7 +1100,7 @@ class VariationalPosterior:
                 if vp2 is not None:
                     q2mu, q2sigma = vp2.moments(N, True, True)
                 else:
-                    q2mu = np.mean(samples)
+                    q2mu = np.mean(samples, axis=0)
                     q2sigma = np.cov(samples.T)
 
             kls = kl_div_mvn(q1mu, q1sigma, q2mu, q2sigma)
-- 
2.43.0


From 8df9ef70330e0f7626c5ade21e14e51dbb9c5937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:58 +0000
Subject: [PATCH 12/34] fix: kl_div replaces infinite densities as intended
 (operator precedence)

---
 pyvbmc/variational_posterior/variational_posterior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index eba67c3..4fce5e9 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1110,15 +1110,15 @@ class VariationalPosterior:
             xx1, _ = self.sample(N, True, True)
             q1 = self.pdf(xx1, True)
             q2 = vp2.pdf(xx1, True)
-            q1[q1 == 0 | np.isinf(q1)] = 1.0
-            q2[q2 == 0 | np.isinf(q2)] = minp
+            q1[(q1 == 0) | np.isinf(q1)] = 1.0
+            q2[(q2 == 0) | np.isinf(q2)] = minp
             kl1 = -np.mean(np.log(q2) - np.log(q1))
 
             xx2, _ = vp2.sample(N, True, True)
             q1 = self.pdf(xx2, True)
             q2 = vp2.pdf(xx2, True)
-            q1[q1 == 0 | np.isinf(q1)] = minp
-            q2[q2 == 0 | np.isinf(q2)] = 1.0
+            q1[(q1 == 0) | np.isinf(q1)] = minp
+            q2[(q2 == 0) | np.isinf(q2)] = 1.0
             kl2 = -np.mean(np.log(q1) - np.log(q2))
             kls = np.concatenate((kl1, kl2), axis=None)
 
-- 
2.43.0


From 343bf5ca6df103a8e595e7966017da6ebc856642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:58 +0000
Subject: [PATCH 13/34] fix: mode() in the original space works for one
 variable

---
 pyvbmc/variational_posterior/variational_posterior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 4fce5e9..178fe03 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -889,9 +889,9 @@ class VariationalPosterior:
             if orig_flag:
                 bounds = np.stack(
                     (
-                        self.parameter_transformer.lb_orig.squeeze()
+                        self.parameter_transformer.lb_orig.ravel()
                         + np.sqrt(np.finfo(float).eps),
-                        self.parameter_transformer.ub_orig.squeeze()
+                        self.parameter_transformer.ub_orig.ravel()
                         - np.sqrt(np.finfo(float).eps),
                     ),
                     axis=1,
@@ -900,7 +900,7 @@ class VariationalPosterior:
                     self.parameter_transformer.ub_orig,
                     np.maximum(x0, self.parameter_transformer.lb_orig),
                 )
-                x0 = x0.squeeze()
+                x0 = x0.ravel()
 
             # fun provides gradient (jac=True) when orig_flag is False:
             res = minimize(
-- 
2.43.0


From 8e7e38d0e8bdea968759992e6a0d0d763ce20474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 14/34] fix: soft-bound loss no longer fails when only length
 scales are optimised

---
 pyvbmc/vbmc/variational_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 665ae47..d70f69d 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -558,7 +558,7 @@ def _vp_bound_loss(
     theta_ext = []
     if vp.optimize_mu:
         theta_ext.append(mu.ravel())
-    if vp.optimize_sigma or vp.optimize_lambda:
+    if vp.optimize_sigma or vp.optimize_lambd:
         theta_ext.append(ln_scale.ravel(order="F"))
     if vp.optimize_weights:
         theta_ext.append(eta.ravel())
@@ -580,7 +580,7 @@ def _vp_bound_loss(
         else:
             start_idx = 0
 
-        if vp.optimize_sigma or vp.optimize_lambda:
+        if vp.optimize_sigma or vp.optimize_lambd:
             dlnscale = np.reshape(
                 dL[start_idx : start_idx + vp.D * vp.K], (vp.D, vp.K)
             )
-- 
2.43.0


From 209669e79cef3f262fa3132533114735bf084c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 15/34] fix: order of the scale gradient in the soft-bound loss

---
 pyvbmc/vbmc/variational_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index d70f69d..99f4500 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -582,7 +582,9 @@ def _vp_bound_loss(
 
         if vp.optimize_sigma or vp.optimize_lambd:
             dlnscale = np.reshape(
-                dL[start_idx : start_idx + vp.D * vp.K], (vp.D, vp.K)
+                dL[start_idx : start_idx + vp.D * vp.K],
+                (vp.D, vp.K),
+                order="F",
             )
 
             if vp.optimize_sigma:
-- 
2.43.0


From 02dc284f67174280a7d5719e0bb4404983f7beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 16/34] fix: evaluating the variational objective does not
 modify the caller's parameters

---
 pyvbmc/vbmc/variational_optimization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 99f4500..ce17c7a 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -1082,8 +1082,7 @@ def _neg_elcbo(
     vp.set_parameters(theta)
 
     if vp.optimize_weights:
-        vp.eta = theta[-K:]
-        vp.eta -= np.amax(vp.eta)
+        vp.eta = theta[-K:] - np.amax(theta[-K:])
         vp.eta = np.reshape(vp.eta, (1, -1))
         # Doing the above is more numerically robust than
         # below, but it might cause slightly different results
-- 
2.43.0


From 2cd40442ccd2a66dcdf0bf155da7d44e6ce7b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 17/34] fix: expected log-joint returns all requested gradients
 without the reparameterisation

---
 pyvbmc/vbmc/variational_optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index ce17c7a..d912b08 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -1529,11 +1529,13 @@ def _gp_log_joint(
         # Correct for standard log reparametrization of sigma
         if jacobian_flag and grad_flags[1]:
             sigma_grad *= np.reshape(sigma, (-1, 1))
+        if grad_flags[1]:
             grad_list.append(sigma_grad)
 
         # Correct for standard log reparametrization of lambd
         if jacobian_flag and grad_flags[2]:
             lambd_grad *= lambd
+        if grad_flags[2]:
             grad_list.append(lambd_grad)
 
         # Correct for standard softmax reparametrization of w
@@ -1544,6 +1546,7 @@ def _gp_log_joint(
                 + np.diag(np.exp(vp.eta.ravel())) / eta_sum
             )
             w_grad = np.dot(J_w, w_grad)
+        if grad_flags[3]:
             grad_list.append(w_grad)
 
         dG = np.concatenate(grad_list, axis=0)
-- 
2.43.0


From 4d81c3b6b45ecda53ab70e32a08e302a672bf79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 18/34] fix: rounding integer variables works for single points
 and leaves the caller's points alone

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index b49ad19..3e637f1 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -184,10 +184,11 @@ class AbstractAcqFcn(ABC):
         """
 
         if np.any(integer_vars):
+            X = X.copy()
             X_temp = parameter_transformer.inverse(X)
-            X_temp[:, integer_vars] = np.around(X_temp[:, integer_vars])
+            X_temp[..., integer_vars] = np.around(X_temp[..., integer_vars])
             X_temp = parameter_transformer(X_temp)
-            X[:, integer_vars] = X_temp[:, integer_vars]
+            X[..., integer_vars] = X_temp[..., integer_vars]
 
         return X
 
-- 
2.43.0


From da61a4fea4a7f8e302e738b8dc0c21dadd0b8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 19/34] fix: the variance-based regularization of acquisition
 functions is switched on under the name they read

---
 pyvbmc/vbmc/vbmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index bede912..1689422 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -722,6 +722,8 @@ class VBMC:
         # By default, apply variance-based regularization
         # to acquisition functions
         optim_state["variance_regularized_acqfcn"] = True
+        # Name read by the acquisition functions
+        optim_state["variance_regularized_acq_fcn"] = True
 
         # Setup search cache
         optim_state["search_cache"] = []
-- 
2.43.0


From 7d2135c8597b0bc05ab5c1fc1fd47ee16a229d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 20/34] fix: integer_vars given as a list selects the listed
 variables, not all

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 1689422..4748034 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -598,7 +598,7 @@ class VBMC:
         # Integer variables
         optim_state["integer_vars"] = np.full(self.D, False)
         if len(self.options.get("integer_vars")) > 0:
-            integeridx = self.options.get("integer_vars") != 0
+            integeridx = np.asarray(self.options.get("integer_vars")) != 0
             optim_state["integer_vars"][integeridx] = True
             if (
                 np.any(np.isinf(self.lower_bounds[:, integeridx]))
-- 
2.43.0


From 2967cdf36a23a7ca8fc3e6ca72bcac89d1ad00fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 21/34] fix: _get_search_points returned fewer points than
 requested when only part of the cache was used

---
 pyvbmc/vbmc/active_sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 1dac2c0..3722193 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -706,8 +706,8 @@ def _get_search_points(
         search_X = parameter_transformer(x0[idx_cache])
 
     # Randomly sample remaining points
-    if x0.shape[0] < number_of_points:
-        N_random_points = number_of_points - x0.shape[0]
+    if search_X.shape[0] < number_of_points:
+        N_random_points = number_of_points - search_X.shape[0]
         random_Xs = np.full((0, D), np.nan)
 
         N_search_cache = round(
-- 
2.43.0


From 0812b281655e1dd654863499fa9bef64a3a4625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 22/34] fix: an empty or short search cache made the search
 point generation fail or return too few points

---
 pyvbmc/vbmc/active_sample.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 3722193..eac2034 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -710,15 +710,14 @@ def _get_search_points(
         N_random_points = number_of_points - search_X.shape[0]
         random_Xs = np.full((0, D), np.nan)
 
-        N_search_cache = round(
-            options.get("search_cache_frac") * N_random_points
+        search_cache = optim_state.get("search_cache")
+        N_search_cache = min(
+            round(options.get("search_cache_frac") * N_random_points),
+            len(search_cache),
         )
         if N_search_cache > 0:  # Take points from search cache
-            search_cache = optim_state.get("search_cache")
             random_Xs = np.append(
-                random_Xs,
-                search_cache[: min(len(search_cache), N_search_cache)],
-                axis=0,
+                random_Xs, search_cache[:N_search_cache], axis=0
             )
 
         N_heavy = round(
-- 
2.43.0


From 2b7205b9e924abec5580e3d7b40280f36ca72154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 23/34] fix: changing the array returned by mode() does not
 change the stored mode

---
 pyvbmc/variational_posterior/variational_posterior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 178fe03..5c187fa 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -846,7 +846,7 @@ class VariationalPosterior:
         locations (even after applying the appropriate transformations).
         """
         if orig_flag and self._mode is not None:
-            return self._mode
+            return self._mode.copy()
 
         def neg_log_pdf(x0, orig_flag=orig_flag):
             if orig_flag:
@@ -914,7 +914,7 @@ class VariationalPosterior:
         x = x_min[idx_min]
 
         if orig_flag:
-            self._mode = x
+            self._mode = x.copy()
 
         return x
 
-- 
2.43.0


From 6a491de18405539d90138f0642466d2e0201aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 24/34] fix: continuing a finished or loaded run does not
 change the recorded history

---
 pyvbmc/vbmc/vbmc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 4748034..08a86f8 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -863,8 +863,11 @@ class VBMC:
         if self.is_finished:
             self.logger.warning("Continuing optimization from previous state.")
             self.is_finished = False
-            self.vp = self.iteration_history["vp"][-1]
-            self.optim_state = self.iteration_history["optim_state"][-1]
+            # Copy, so that continuing does not change the recorded history
+            self.vp = copy.deepcopy(self.iteration_history["vp"][-1])
+            self.optim_state = copy.deepcopy(
+                self.iteration_history["optim_state"][-1]
+            )
         self._log_column_headers()
         while not self.is_finished:
             self.iteration += 1
@@ -2253,8 +2256,11 @@ class VBMC:
             # Handle instances saved before running vbmc.optimize()
             for attr in ["gp", "vp", "function_logger", "optim_state"]:
                 if vbmc.iteration_history[attr] is not None:
+                    # Copy, so that continuing does not change the history
                     setattr(
-                        vbmc, attr, vbmc.iteration_history[attr][iteration]
+                        vbmc,
+                        attr,
+                        copy.deepcopy(vbmc.iteration_history[attr][iteration]),
                     )
             if vbmc.optim_state.get("hyp_dict") is not None:
                 vbmc.hyp_dict = vbmc.optim_state["hyp_dict"]
-- 
2.43.0


From 21bec0664e4d49fb37b5be57f9fea17a70f4c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 25/34] fix: prior densities and supports of integer-typed
 points and parameters

---
 pyvbmc/priors/smooth_box.py         | 6 +++---
 pyvbmc/priors/spline_trapezoidal.py | 2 +-
 pyvbmc/priors/trapezoidal.py        | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvbmc/priors/smooth_box.py b/pyvbmc/priors/smooth_box.py
index d6d77ae..673015b 100644
--- a/pyvbmc/priors/smooth_box.py
+++ b/pyvbmc/priors/smooth_box.py
@@ -75,7 +75,7 @@ class SmoothBox(Prior):
             The log-density of the prior at the input point(s), of dimension
             `(n, 1)`.
         """
-        log_pdf = np.full_like(x, -np.inf)
+        log_pdf = np.full(x.shape, -np.inf)
         log_norm_factor = -np.log(np.sqrt(2 * np.pi) * self.scale) - np.log1p(
             (self.b - self.a) / (np.sqrt(2 * np.pi) * self.scale)
         )
@@ -168,8 +168,8 @@ class SmoothBox(Prior):
             [``lb[i]``, ``ub[i]``] bounds the support of the `i`th marginal.
         """
         return (
-            np.full_like(self.a, -np.inf),
-            np.full_like(self.b, np.inf),
+            np.full(self.a.shape, -np.inf),
+            np.full(self.b.shape, np.inf),
         )
 
     def __str__(self):
diff --git a/pyvbmc/priors/spline_trapezoidal.py b/pyvbmc/priors/spline_trapezoidal.py
index 6bb644e..6a78a05 100644
--- a/pyvbmc/priors/spline_trapezoidal.py
+++ b/pyvbmc/priors/spline_trapezoidal.py
@@ -94,7 +94,7 @@ class SplineTrapezoidal(Prior):
             `(n, 1)`.
         """
         n, D = x.shape
-        log_pdf = np.full_like(x, -np.inf)
+        log_pdf = np.full(x.shape, -np.inf)
         # a b c d
         # a u v b
         # norm_factor = u - v + 0.5 * (b - v + u - a)
diff --git a/pyvbmc/priors/trapezoidal.py b/pyvbmc/priors/trapezoidal.py
index 15366e6..530b86c 100644
--- a/pyvbmc/priors/trapezoidal.py
+++ b/pyvbmc/priors/trapezoidal.py
@@ -92,7 +92,7 @@ class Trapezoidal(Prior):
             `(n, 1)`.
         """
         n, D = x.shape
-        log_pdf = np.full_like(x, -np.inf)
+        log_pdf = np.full(x.shape, -np.inf)
         log_norm_factor = np.log(0.5) + np.log(
             self.b - self.a + self.v - self.u
         )
-- 
2.43.0


From 26c4de3c4690bc0846e8ad5f4ace12cfa64fb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 26/34] fix: support of a SciPy prior accounts for location and
 scale

---
 pyvbmc/priors/scipy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/priors/scipy.py b/pyvbmc/priors/scipy.py
index a57a05b..2a2343e 100644
--- a/pyvbmc/priors/scipy.py
+++ b/pyvbmc/priors/scipy.py
@@ -51,8 +51,8 @@ class SciPy(Prior):
             self.b = np.full(self.D, np.inf)
         elif isinstance(distribution, rv_continuous_frozen):
             self.D = 1
-            self.a = np.atleast_1d(distribution.a)
-            self.b = np.atleast_1d(distribution.b)
+            a, b = distribution.support()
+            self.a, self.b = np.atleast_1d(a), np.atleast_1d(b)
         else:
             raise TypeError(
                 f'A SciPy prior should be initialized from a "frozen" multivariate normal, multivariate t, or univariate SciPy distribution, but got `distribution` of type {type(distribution)}.'
-- 
2.43.0


From 8a838026a7ab4e8aaf5bea3bdf4f1a0dbe7ded0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 27/34] fix: minimize_adam does not modify the caller's
 starting point

---
 pyvbmc/vbmc/minimize_adam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/minimize_adam.py b/pyvbmc/vbmc/minimize_adam.py
index fbb3beb..779eeb8 100644
--- a/pyvbmc/vbmc/minimize_adam.py
+++ b/pyvbmc/vbmc/minimize_adam.py
@@ -78,7 +78,8 @@ def minimize_adam(
     v = 0
     x_tab = np.zeros((n_vars, max_iter))
 
-    x = x0
+    # Work on a copy, the updates below are in place
+    x = np.array(x0, dtype=float)
     y_tab = np.full((max_iter,), np.nan)
 
     for i in range(0, max_iter):
-- 
2.43.0


From bed07492d4a0593c8fa3a2953fa64abaf055dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 28/34] fix: importance resampling uses the weights, not one
 maximum per point

---
 pyvbmc/vbmc/active_importance_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_importance_sampling.py b/pyvbmc/vbmc/active_importance_sampling.py
index e11fcac..741a69b 100644
--- a/pyvbmc/vbmc/active_importance_sampling.py
+++ b/pyvbmc/vbmc/active_importance_sampling.py
@@ -228,8 +228,8 @@ def active_importance_sampling(vp, gp, acq_fcn, options):
                 ln_weights = active_is_old["ln_weights"][s, :].reshape(
                     -1, 1
                 ) + acq_fcn.is_log_added(f_mu=f_mu, f_s2=f_s2)
-                ln_weights_max = np.amax(ln_weights, axis=1).reshape(-1, 1)
-                if np.any(ln_weights_max == -np.inf):
+                ln_weights_max = np.amax(ln_weights)
+                if ln_weights_max == -np.inf:
                     raise ValueError("Invalid value.")
                 weights = np.exp(ln_weights - ln_weights_max).ravel()
                 weights = weights / np.sum(weights)
-- 
2.43.0


From dd533530cd6862d125a49a4c92452f100396808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 29/34] fix: fess accepts a number of samples

---
 pyvbmc/vbmc/active_importance_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/active_importance_sampling.py b/pyvbmc/vbmc/active_importance_sampling.py
index 741a69b..16ef861 100644
--- a/pyvbmc/vbmc/active_importance_sampling.py
+++ b/pyvbmc/vbmc/active_importance_sampling.py
@@ -453,7 +453,7 @@ def fess(vp, gp, X=100):
     # If a single number is passed, interpret it as the number of samples
     if np.isscalar(X):
         N = X
-        X = vp.sample(N, orig_flag=False)
+        X, __ = vp.sample(N, orig_flag=False)
     else:
         N = X.shape[0]
 
-- 
2.43.0


From 2f3a4fb6d6dda0093376e6c7e51a1b95fa17889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 30/34] fix: pruning removes the component from both axes of
 the pairwise covariance

---
 pyvbmc/vbmc/variational_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index d912b08..59650d8 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -373,6 +373,7 @@ def optimize_vp(
                 pruned += 1
                 already_checked = np.delete(already_checked, idx)
                 I_sk = np.delete(I_sk, idx, axis=1)
+                J_sjk = np.delete(J_sjk, idx, axis=1)
                 J_sjk = np.delete(J_sjk, idx, axis=2)
             else:
                 already_checked[idx] = True
-- 
2.43.0


From 1204fc5da04a5abc7fac22d2ef7ceb452536b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 31/34] fix: weighted hyperparameter covariance treats rows of
 the recorded array as samples

---
 pyvbmc/vbmc/gaussian_process_train.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index 6894fdb..d193786 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -705,14 +705,19 @@ def _get_hyp_cov(
                 hyp = iteration_history["gp_hyp_full"][
                     optim_state["iter"] - 1 - i
                 ]
-                hyp_n = hyp.shape[1]
-                if len(hyp_list) == 0 or np.shape(hyp_list)[2] == hyp.shape[0]:
-                    hyp_list.append(hyp.T)
-                    w_list.append(w * np.ones((hyp_n, 1)) / hyp_n)
+                # One row per hyperparameter sample.
+                hyp_s_N = hyp.shape[0]
+                if len(hyp_list) == 0 or hyp_list[0].shape[1] == hyp.shape[1]:
+                    hyp_list.append(hyp)
+                    w_list.append(w * np.ones((hyp_s_N, 1)) / hyp_s_N)
 
             w_list = np.concatenate(w_list)
             hyp_list = np.concatenate(hyp_list)
 
+            # No covariance from a single sample.
+            if hyp_list.shape[0] < 2:
+                return None
+
             # Normalize weights
             w_list /= np.sum(w_list, axis=0)
             # Weighted mean
@@ -722,9 +727,8 @@ def _get_hyp_cov(
             hyp_n = np.shape(hyp_list)[1]
             hyp_cov = np.zeros((hyp_n, hyp_n))
             for j in range(0, np.shape(hyp_list)[0]):
-                hyp_cov += np.dot(
-                    w_list[j],
-                    np.dot((hyp_list[j] - mu_star).T, hyp_list[j] - mu_star),
+                hyp_cov += w_list[j] * np.outer(
+                    hyp_list[j] - mu_star, hyp_list[j] - mu_star
                 )
 
             hyp_cov /= 1 - np.sum(w_list**2)
-- 
2.43.0


From c283ddcac21a6c891af1757f054705afcfe8b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 32/34] fix: upper_gp_length_factor had no effect with the
 squared-exponential covariance

---
 pyvbmc/vbmc/gaussian_process_train.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index d193786..6278739 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -351,12 +351,13 @@ def _gp_hyp(
     ## Change default bounds and set priors over hyperparameters.
 
     bounds = gp.get_bounds()
+    ub_log_lengthscale = np.nan
     if options["upper_gp_length_factor"] > 0:
         # Max GP input length scale
-        bounds["covariance_log_lengthscale"] = (
-            -np.inf,
-            np.log(options["upper_gp_length_factor"] * (pub_tran - plb_tran)),
-        )
+        ub_log_lengthscale = np.log(
+            options["upper_gp_length_factor"] * (pub_tran - plb_tran)
+        ).ravel()
+        bounds["covariance_log_lengthscale"] = (-np.inf, ub_log_lengthscale)
     # Increase minimum noise.
     bounds["noise_log_scale"] = (np.log(min_noise), np.inf)
 
@@ -384,7 +385,7 @@ def _gp_hyp(
         )
         bounds["covariance_log_lengthscale"] = (
             cov_bounds_info["LB"][:D],
-            np.nan,
+            ub_log_lengthscale,
         )
         # These bounds are wider since cov_bounds_info is based on the
         # high-posterior-density region as opposed to the full data
-- 
2.43.0


From 389ceed0dacb3ab06c5ee6dafa7fc6a0aab12825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 33/34] fix: warping with a non-empty search cache no longer
 raises

---
 pyvbmc/whitening/whitening.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 2cbcd9e..0e16687 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -219,8 +219,9 @@ def warp_input(vp, optim_state, function_logger, options):
     optim_state["ub_search"] = np.atleast_2d(yyMax + delta / Nrnd)
 
     # If search cache is not empty, update it
-    if optim_state.get("search_cache"):
-        optim_state["search_cache"] = warpfun(optim_state["search_cache"])
+    search_cache = optim_state.get("search_cache")
+    if search_cache is not None and len(search_cache) > 0:
+        optim_state["search_cache"] = warpfun(search_cache)
 
     # Update other state fields
     optim_state["recompute_var_post"] = True
-- 
2.43.0


From 7fab983ee87e23d6619a803d11e5e86a6e55ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 34/34] fix: unscent_warp accepts one point with several scales

---
 pyvbmc/whitening/whitening.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 0e16687..aff152c 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -71,8 +71,10 @@ def unscent_warp(fun, x, sigma):
 
     # Estimate the mean and standard deviation of the warped points
     # by the mean and std of these sigma-points
-    x_warped_mean = np.mean(x_warped, axis=0).reshape(x_shape_orig)
-    x_warped_sigma = np.std(x_warped, axis=0, ddof=1).reshape(x_shape_orig)
+    # (in the shape of `x`, unless it was repeated to match `sigma`)
+    out_shape = x_shape_orig if N1 == N else (N, D)
+    x_warped_mean = np.mean(x_warped, axis=0).reshape(out_shape)
+    x_warped_sigma = np.std(x_warped, axis=0, ddof=1).reshape(out_shape)
 
     return x_warped_mean, x_warped_sigma, x_warped
 
-- 
2.43.0

