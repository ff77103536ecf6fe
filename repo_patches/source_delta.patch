From 49749cc2508eefa2753c18c391e3b3c9a4fd2332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 01/13] fix: default value of a doubly bounded parameter is the
 midpoint of its bounds

---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index faa26f4..4fe3aa5 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -66,7 +66,7 @@ constrain_scalar_hess = autograd.hessian(constrain)
 def get_inbounds_value(lb, ub):
     assert lb < ub
     if lb > -float('inf') and ub < float('inf'):
-        return 0.5 * (ub - lb)
+        return 0.5 * (ub + lb)
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-- 
2.43.0


From a3a5d3e0760b25e77e44f5b8785814768a2137f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 02/13] fix: derivatives of a deep-copied parameter use the
 copy, not the original

---
 LinearResponseVariationalBayes/MatrixParameters.py | 10 +++++++---
 LinearResponseVariationalBayes/Parameters.py       |  8 ++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 6da871b..999009f 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -146,9 +146,13 @@ class PosDefMatrixParam(object):
         else:
             self.set(val)
 
-        # These will be dense, so just use autograd directly.
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
+    # These will be dense, so just use autograd directly.  They are bound at
+    # call time so that a deep copy of the parameter differentiates itself
+    # rather than the original.
+    def free_to_vector_jac_dense(self, free_val):
+        return autograd.jacobian(self.free_to_vector)(free_val)
+    def free_to_vector_hess_dense(self, free_val):
+        return autograd.hessian(self.free_to_vector)(free_val)
 
     def __str__(self):
         return self.name + ':\n' + str(self.__val)
diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 4fe3aa5..961819e 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -93,8 +93,12 @@ class ScalarParam(object):
         else:
             self.set(get_inbounds_value(lb, ub))
 
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
+    # These are dense.  They are bound at call time so that a deep copy of
+    # the parameter differentiates itself rather than the original.
+    def free_to_vector_jac_dense(self, free_val):
+        return autograd.jacobian(self.free_to_vector)(free_val)
+    def free_to_vector_hess_dense(self, free_val):
+        return autograd.hessian(self.free_to_vector)(free_val)
 
     def __str__(self):
         return self.name + ': ' + str(self.__val)
-- 
2.43.0


From 5e49d3a9f7eab3ed2ad207e7b5a0eb81d63b6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 03/13] fix: stacks of positive definite matrices reject every
 wrong shape

---
 LinearResponseVariationalBayes/MatrixParameters.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 999009f..d02da5d 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -227,7 +227,7 @@ class PosDefMatrixParamVector(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
     def get(self):
@@ -351,9 +351,7 @@ class PosDefMatrixParamArray(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
-            print(val.shape)
-            print(self.__shape)
+        if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
 
-- 
2.43.0


From 370fe76d87726d124e831c44bf18740ecc8b962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 04/13] fix: PosDefMatrixParamArray default shape and length()

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index d02da5d..5b0df19 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -325,7 +325,7 @@ class PosDefMatrixParamVector(object):
 # In keeping with the vector version, the last two indices are indices
 # of the matrix.
 class PosDefMatrixParamArray(object):
-    def __init__(self, name='', array_shape=(1), matrix_size=2, diag_lb=0.0, val=None):
+    def __init__(self, name='', array_shape=(1, ), matrix_size=2, diag_lb=0.0, val=None):
         self.name = name
         self.__matrix_size = int(matrix_size)
         self.__matrix_shape = np.array([ int(matrix_size), int(matrix_size) ])
@@ -472,7 +472,7 @@ class PosDefMatrixParamArray(object):
         return hessians
 
     def length(self):
-        return self.__length
+        return self.__array_length
     def matrix_size(self):
         return self.__matrix_size
     def free_size(self):
-- 
2.43.0


From 01720e5703733d38a44b436393bb04662f969a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 05/13] fix: UVNMomentParamArray.var_exp returns the lognormal
 variance

---
 LinearResponseVariationalBayes/NormalParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/NormalParams.py b/LinearResponseVariationalBayes/NormalParams.py
index 509b07e..39691a3 100644
--- a/LinearResponseVariationalBayes/NormalParams.py
+++ b/LinearResponseVariationalBayes/NormalParams.py
@@ -121,7 +121,7 @@ class UVNMomentParamArray(vb.ModelParamsDict):
     def e_exp(self):
         return ef.get_e_lognormal(self['e'].get(), self.var())
     def var_exp(self):
-        return ef.get_e_lognormal(self['e'].get(), self.var())
+        return ef.get_var_lognormal(self['e'].get(), self.var())
     def e2_exp(self):
         return self.e_exp() ** 2 + self.var_exp()
     def entropy(self):
-- 
2.43.0


From bd3fd27b89a286329eca4be2473b704357cc9199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 06/13] fix: WishartParam uses the requested matrix size

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 1db19cf..580306d 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -12,7 +12,7 @@ class WishartParam(vb.ModelParamsDict):
         assert min_df >= size - 1
         self.push_param(vb.ScalarParam('df', lb=min_df))
         self.push_param(
-            vb.PosDefMatrixParam('v', diag_lb=diag_lb))
+            vb.PosDefMatrixParam('v', size=self.__size, diag_lb=diag_lb))
 
     def e(self):
         return self['df'].get() * self['v'].get()
-- 
2.43.0


From cf6d13c49d2bee21e9c0c6a750c970b524ba5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 07/13] fix: univariate_normal_log_prob uses the log of the
 information

---
 LinearResponseVariationalBayes/Modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index f451c1a..31515ed 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -59,7 +59,7 @@ def get_standard_draws(num_draws):
 
 
 def univariate_normal_log_prob(u, u_mean, u_info):
-    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * u_info \
+    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \
            - 0.5 * np.log(2 * np.pi)
 
 
-- 
2.43.0


From 8a6ba50cc9ebaff83c90d7c42dccbf2795d8cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 08/13] fix: WishartParam.e_inv is the mean of the inverse
 Wishart distribution

---
 LinearResponseVariationalBayes/WishartParams.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 580306d..9507468 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -20,7 +20,9 @@ class WishartParam(vb.ModelParamsDict):
         return ef.e_log_det_wishart(self['df'].get(),
                                     self['v'].get())
     def e_inv(self):
-        return self['df'].get() * np.linalg.inv(self['v'].get())
+        # The mean of the inverse Wishart, which is finite for df > size + 1.
+        return np.linalg.inv(self['v'].get()) / \
+            (self['df'].get() - self.__size - 1)
 
     def entropy(self):
         return ef.wishart_entropy(self['df'].get(),
-- 
2.43.0


From f36880f2378d7437fd133704584e1fd636bba032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 09/13] fix: ParametricSensitivity converts the base output
 from the optimal input

---
 LinearResponseVariationalBayes/SparseObjectives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 8d1d313..0f974a1 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -546,7 +546,9 @@ class ParametricSensitivity(object):
             self.sensitivity_objective.fun_hessian_free1_vector2(
                 self.optimal_input_par, self.optimal_hyper_par)
 
-        self.optimal_output_par = self.output_par.get_vector()
+        self.optimal_output_par = \
+            self.parameter_converter.converter_free_to_vec(
+                self.optimal_input_par)
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
                 self.hessian_chol, self.hyper_par_cross_hessian)
-- 
2.43.0


From 690031d71be69d7d744ef9979058d6d74912cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 10/13] fix: consolidate_terms combines every like term

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 8ea1e86..3f2bd1e 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -248,7 +248,7 @@ def consolidate_terms(dterms):
     consolidated_dterms = []
     while len(unmatched_indices) > 0:
         match_term = dterms[unmatched_indices.pop(0)]
-        for ind in unmatched_indices:
+        for ind in list(unmatched_indices):
             if (match_term.eta_orders == dterms[ind].eta_orders):
                 match_term = match_term.combine_with(dterms[ind])
                 unmatched_indices.remove(ind)
-- 
2.43.0


From 12f1ea847d31e333921e77ddb4c4f5aafed1e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 11/13] fix: sensitivity classes use the supplied Hessian and
 the declared encodings

---
 .../ModelSensitivity.py                       | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 3f2bd1e..d6ddc03 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -402,7 +402,7 @@ class ParametricSensitivityTaylorExpansion(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
 
     def set_par_to_base_values(self):
@@ -420,7 +420,10 @@ class ParametricSensitivityTaylorExpansion(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
@@ -576,7 +579,7 @@ class ParametricSensitivityLinearApproximation(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
 
     def set_par_to_base_values(self):
         set_par(self.input_par, self.input_val0, self.input_is_free)
@@ -588,14 +591,24 @@ class ParametricSensitivityLinearApproximation(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
+        if self.input_is_free and self.hyper_is_free:
+            eval_cross_hessian = self.joint_objective.fun_free_hessian12
+        elif self.input_is_free:
+            eval_cross_hessian = self.joint_objective.fun_hessian_free1_vector2
+        elif self.hyper_is_free:
+            eval_cross_hessian = self.joint_objective.fun_hessian_vector1_free2
+        else:
+            eval_cross_hessian = self.joint_objective.fun_vector_hessian12
         self.hyper_par_cross_hessian0 = \
-            self.joint_objective.fun_hessian_free1_vector2(
-                self.input_val0, self.hyper_val0)
+            eval_cross_hessian(self.input_val0, self.hyper_val0)
 
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
-- 
2.43.0


From 37b686db1b2814fcaae92779edf5dee50569f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 12/13] fix: Taylor terms in the input use the whole objective

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index d6ddc03..7645da9 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -460,6 +460,20 @@ class ParametricSensitivityTaylorExpansion(object):
         self.eval_g_derivs = generate_two_term_derivative_array(
             self.objective_gradient, order=self.order + 1)
 
+        # The derivatives with respect to input_par alone need the whole
+        # objective, not only the part that depends on the hyperparameter.
+        if self.hyper_par_objective_functor is not self.objective_functor:
+            full_joint_objective = obj_lib.TwoParameterObjective(
+                self.input_par, self.hyper_par, self.objective_functor)
+            def full_gradient(input_val, hyper_val):
+                return full_joint_objective.fun_grad1(
+                    input_val, hyper_val,
+                    self.input_is_free, self.hyper_is_free)
+            full_g_derivs = generate_two_term_derivative_array(
+                full_gradient, order=self.order + 1)
+            for i in range(len(self.eval_g_derivs)):
+                self.eval_g_derivs[i][0] = full_g_derivs[i][0]
+
         self.taylor_terms_list = [ get_taylor_base_terms(self.eval_g_derivs) ]
         self.dkinput_dhyperk_list = []
         for k in range(self.order - 1):
-- 
2.43.0


From d93e8eda39f9a50cc09d8f85c5f423e1db2a7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 13/13] fix: ScalarParam rejects values that are not scalars

---
 LinearResponseVariationalBayes/Parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 961819e..4f803b2 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -119,6 +119,9 @@ class ScalarParam(object):
         #     raise ValueError(error_msg)
         # if val > self.__ub:
         #     raise ValueError('val is greater than the upper bound.')
+        if np.size(val) != 1:
+            raise ValueError('Wrong size for scalar ' + self.name +
+                             '.  Expected: 1, got ' + str(np.size(val)))
         self.__val = val
     def get(self):
         return self.__val
-- 
2.43.0

