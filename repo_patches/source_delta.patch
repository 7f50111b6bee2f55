From c87747474d0199d5a04506ddc7ecfc445d90edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 01/48] fix: call the flip function correctly for 3D factors
 with a parent layer

---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 15b7210..4d30e13 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -230,7 +230,7 @@ def make_sampling_fct_onechild_oneparent(model, parent_model):
                         parent_posterior_score_fct(pa1[n, :], pa2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
-                        logit_score + logit_parent_score + logit_prior), Z[n, l]
+                        logit_score + logit_parent_score + logit_prior, Z[n, l])
 
     return sampling_fct
 
-- 
2.43.0


From 70f3e293210cda49cdc880e1bb281c854021d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 02/48] fix: use each parent's own model for matrices with two
 parent layers

---
 lom/_numba/matrix_updates_numba.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 4d30e13..468d88c 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -280,8 +280,8 @@ def make_sampling_fct_nochild_oneparent(parent_model):
 
 def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if parent_model_1[-2:] == '2D' and parent_model_2[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], ' +
@@ -298,10 +298,10 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                         continue
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_parent_score_1 + logit_parent_score_2 + logit_prior,
@@ -323,11 +323,11 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                             continue
 
                         logit_parent_score_1 = lbda_pa1 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_1(
                                 pa1_1[n, :], pa1_2[d, :], pa1_3[m, :])
 
                         logit_parent_score_2 = lbda_pa2 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_2(
                                 pa2_1[n, :], pa2_2[d, :], pa2_3[m, :])
 
                         Z[n, d, m] = flip_metropolised_gibbs_numba(
@@ -342,8 +342,8 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2):
 
     posterior_score_fct = get_posterior_score_fct(model)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if model[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64,' +
@@ -365,10 +365,10 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
                         posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_score + logit_parent_score_1 +
-- 
2.43.0


From 8682adb6d5b6a541fcac25c009ce895ceab114f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 03/48] fix: accumulate all posterior scores in 64 bit

---
 lom/_numba/posterior_score_fcts.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lom/_numba/posterior_score_fcts.py b/lom/_numba/posterior_score_fcts.py
index 51cae44..68b44e9 100644
--- a/lom/_numba/posterior_score_fcts.py
+++ b/lom/_numba/posterior_score_fcts.py
@@ -18,7 +18,7 @@ def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -81,7 +81,7 @@ def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -151,7 +151,7 @@ def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -216,7 +216,7 @@ def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] == -1:  # NAND
             continue
@@ -272,7 +272,7 @@ def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -317,7 +317,7 @@ def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -362,7 +362,7 @@ def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         num_active = np.int8(0)
         for l_prime in range(L):
@@ -412,7 +412,7 @@ def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
 
     for d in range(D):
         num_active = np.int8(0)
-- 
2.43.0


From aefbcfaec8174e1d40ac3ccc0cc67b001ddab8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 04/48] fix: parenthesise the XOR probability in the 3D fuzzy
 OR-XOR product

---
 lom/_numba/lom_outputs_fuzzy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index f77e4b4..3a2bfde 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -97,9 +97,9 @@ def OR_XOR_product_fuzzy_3d(Z_n, U_d, V_m):
     temp = np.float64(1)
     # this is hard to generalise to arbitrary D
     for l in range(Z_n.shape[0]):
-        temp *= 1 - Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +\
-            U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +\
-            V_m[l] * (1 - Z_n[l]) * (1 - U_d[l])
+        temp *= 1 - (Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +
+                     U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +
+                     V_m[l] * (1 - Z_n[l]) * (1 - U_d[l]))
     return 1 - temp
 
 
-- 
2.43.0


From c5542ae3d7a61bf47e9d500c69559aa2556f905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 05/48] fix: respect the fuzzy option for all models and
 arities in lom_generate_data_fast

---
 lom/_numba/lambda_updates_numba.py |  2 +-
 lom/auxiliary_functions.py         | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/lambda_updates_numba.py b/lom/_numba/lambda_updates_numba.py
index 3c96cc0..18849a3 100644
--- a/lom/_numba/lambda_updates_numba.py
+++ b/lom/_numba/lambda_updates_numba.py
@@ -146,7 +146,7 @@ def make_output_function_2d_fuzzy(model):
 def make_output_function_3d_fuzzy(model):
     get_scalar_output_3d = get_scalar_output_function_3d(model, fuzzy=True)
 
-    @jit('float64[:,:](float64[:,:], float64[:,:], float64[:,:])',
+    @jit('float64[:,:,:](float64[:,:], float64[:,:], float64[:,:])',
          nogil=True, nopython=False, parallel=True)
     def output_function_3d(Z, U, V):
         N = Z.shape[0]
diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index cd2877b..b00cf75 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -744,7 +744,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
     if model not in implemented_loms():
         print('Requested model output is not explicitly implemented.\n' +
               'Falling back to slower general implementation.')
-        return lom_generate_data(factors, model)
+        return lom_generate_data_general(factors, model, fuzzy)
 
     if len(factors) == 2:
 
@@ -756,7 +756,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out2D = lambda_updates_numba.make_output_function_2d_fuzzy(model)
             return out2D(*[np.array(f, dtype=np.float64) for f in factors])
 
-    elif len(factors) == 3 and model == 'OR-AND':
+    elif len(factors) == 3:
         if fuzzy is False:
             out3D = lambda_updates_numba.make_output_function_3d(model)
             return out3D(*[np.array(f, dtype=np.int8) for f in factors])
@@ -766,8 +766,22 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             return out3D(*[np.array(f, dtype=np.float64) for f in factors])
 
     else:
+        return lom_generate_data_general(factors, model, fuzzy)
+
+
+def lom_generate_data_general(factors, model='OR-AND', fuzzy=False):
+    """
+    Slow fallback of lom_generate_data_fast for any model and arity.
+    Same coding: [-1,1], or probabilities in [0,1] if fuzzy.
+    """
+
+    if fuzzy is False:
         return lom_generate_data(factors, model)
 
+    # lom_generate_data_fuzzy maps from and to [-1, 1]
+    return .5 * (lom_generate_data_fuzzy([2 * f - 1 for f in factors],
+                                         model) + 1)
+
 
 def lom_generate_data(factors, model='OR-AND'):
     """
-- 
2.43.0


From b8bdd666c08235c8d652841604d47fce311960de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 06/48] fix: invert the layer's data without touching the
 caller's array or requiring a given child

---
 lom/auxiliary_functions.py | 4 ++--
 lom/machine.py             | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index b00cf75..aaa6d22 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -955,7 +955,7 @@ def canonise_model(model, child):
     if invert_data is True and invert_factors is False:
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data.\n')
-        child.val *= -1
+        child.val = -child.val
 
     if invert_data is False and invert_factors is True:
         print('\n' + model + ' is treated as ' + model_new +
@@ -965,7 +965,7 @@ def canonise_model(model, child):
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data and inverted factors. ' +
               ' (invert factors yourself!)\n')
-        child.val *= -1
+        child.val = -child.val
 
     # print warning for OR-NAND models.
     if model_new == 'OR-NAND':
diff --git a/lom/machine.py b/lom/machine.py
index debef3b..0dcbf9b 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -493,10 +493,6 @@ class Machine():
         information about children's parents need to be assigned.
         """
 
-        # Convert model to canonical representation and invert data
-        # if necessary, return indicators to track inversion.
-        model, invert_data, invert_factors = aux.canonise_model(model, child)
-
         # determine size of all members
         if child is None and shape is not None:
             child = MachineMatrix(shape=shape)
@@ -505,6 +501,10 @@ class Machine():
         else:
             raise ValueError("Not enough shape information provided.")
 
+        # Convert model to canonical representation and invert data
+        # if necessary, return indicators to track inversion.
+        model, invert_data, invert_factors = aux.canonise_model(model, child)
+
         # initialise matrices/factors (use add_matrix)
         factors = [MachineMatrix(shape=(K, latent_size),
                                  child_axis=i)
-- 
2.43.0


From 8392f77057939bce758d1cd2597d48d5ece0ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 07/48] fix: allow inference of data matrices that belong to no
 layer

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 0dcbf9b..f68ac8f 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -723,7 +723,7 @@ class Machine():
         # allocate memory to save samples
         print('allocating memory to save samples...')
         for mat in mats:
-            if mat.layer.model == 'OR-AND-IBP':
+            if mat.model == 'OR-AND-IBP':
                 mat.allocate_trace_arrays_IBP(no_samples)
             else:
                 mat.allocate_trace_arrays(no_samples)
-- 
2.43.0


From 397ef8d87c48a2c2ed20cc01102a0f1aec771af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 08/48] fix: check convergence on complete windows only and
 count burn-in iterations correctly

---
 lom/machine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index f68ac8f..5afed1d 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -618,8 +618,8 @@ class Machine():
                       '\t--\t '.join([x.print_value() for x in lbdas]),
                       end='')
 
-            #  check convergence every convergence_window iterations
-            if burn_in_iter % convergence_window == 0:
+            #  check convergence every convergence_window (completed) iterations
+            if burn_in_iter > 1 and (burn_in_iter - 1) % convergence_window == 0:
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
@@ -646,7 +646,7 @@ class Machine():
 
                     else:
                         # save number of burn in iterations
-                        self.burn_in_iters = burn_in_iter + pre_burn_in_iter
+                        self.burn_in_iters = burn_in_iter - 1 + pre_burn_in_iter
                         break
 
             # stop if maximum number of burn in iterations is reached
@@ -661,7 +661,7 @@ class Machine():
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-                self.burn_in_iters = burn_in_iter
+                self.burn_in_iters = burn_in_iter - 1 + pre_burn_in_iter
                 break
 
             # draw samples # shuffle(mats)
-- 
2.43.0


From 92746e9464a4acbe9b67cd838d66dca725b5943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 09/48] fix: annealing ends exactly at the initial dispersion,
 for every kind of dispersion parameter

---
 lom/machine.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 5afed1d..7e234f5 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -557,6 +557,12 @@ class Machine():
         Convergence is detected by comparing means of noise parameters.
         """
 
+        if self.anneal is True and fix_lbda_iters != 0:
+            raise ValueError('fix_lbda_iters should be zero for annealing.')
+
+        # values that annealing leads up to
+        annealing_targets = [lbda() for lbda in lbdas]
+
         # first sample without checking for convergence or saving lbda traces
         # this is a 'pre-burn-in-phase'
         pre_burn_in_iter = 0
@@ -585,20 +591,8 @@ class Machine():
                 # Anneal lambda for pre_burn_in_iter steps to
                 # it's initially given value.
                 elif self.anneal is True:
-                    try:
-                        assert fix_lbda_iters == 0
-                    except:
-                        raise ValueError('fix_lbda_iters should be zero for annealing.')
-                    # pre-compute annealing steps
-                    if pre_burn_in_iter == fix_lbda_iters + 1:
-                        annealing_lbdas = [np.arange(
-                            lbda() / burn_in_min,
-                            lbda() + 2 * lbda() / burn_in_min,
-                            lbda() / burn_in_min)
-                            for lbda in lbdas]
-
-                    for lbda_idx, lbda in enumerate(lbdas):
-                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter]
+                    for lbda, target in zip(lbdas, annealing_targets):
+                        lbda.val = target * (pre_burn_in_iter / burn_in_min)
 
         # allocate array for lambda traces for burn in detection
         for lbda in lbdas:
-- 
2.43.0


From 4226983aca5fced151446e50499492ae6f8a0b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 10/48] fix: clean_up_codes visits the dimension following a
 removed one

---
 lom/auxiliary_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index aaa6d22..0f53d64 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -118,6 +118,8 @@ def clean_up_codes(layer, reset=True, clean=False):
         if np.any([np.all(f()[:, l] == -1) for f in layer.factors]):
             cleaning_action(l, layer)
             reduction_applied = True
+            if reset is not True:
+                continue  # next dimension has moved to position l
         l += 1
 
     # remove duplicates
@@ -129,6 +131,8 @@ def clean_up_codes(layer, reset=True, clean=False):
                 if np.all(f()[:, l] == f()[:, l_prime]):
                     reduction_applied = True
                     cleaning_action(l_prime, layer)
+                    if reset is not True:
+                        l_prime -= 1  # next dimension has moved to position l_prime
                     break
             l_prime += 1
         l += 1
-- 
2.43.0


From 86c41de3ea990ed5ea29e1779bd5ff57ce2ba036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 11/48] fix: remove everything that belongs to a removed latent
 dimension

---
 lom/auxiliary_functions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 0f53d64..d06d02a 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -156,6 +156,15 @@ def remove_dimension(l_prime, layer):
     # layer.size -= 1
     for f in layer.factors:
         f.val = np.delete(f.val, l_prime, axis=1)
+        f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
+        # the columns of f are the rows of its parents' second factors
+        for parent in f.parents:
+            parent.u.val = np.delete(parent.u.val, l_prime, axis=0)
+            parent.u.fixed_entries = np.delete(parent.u.fixed_entries, l_prime, axis=0)
+
+    # one dispersion parameter per dimension (and the baseline)
+    if layer.model == 'MAX-AND':
+        layer.lbda.val = np.delete(layer.lbda.val, l_prime)
 
 
 def reset_dimension(l_prime, layer):
-- 
2.43.0


From fa60e52807c29057582302137bd1ee0d5fd3eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 12/48] fix: MAX-AND updates use the latent dimensions in order
 of the current dispersion

---
 lom/_numba/max_machine_sampler.py | 16 ++++++++--------
 lom/matrix_update_wrappers.py     |  6 ++++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 479955f..2577bd8 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -13,27 +13,27 @@ from lom._numba.lom_outputs import OR_AND_product_expand
 def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
     N, L = Z.shape
     for n in prange(N):
-        for l in range(L):
+        for l_idx in range(L):  # position in order of decreasing dispersion
+            l = l_sorted[l_idx]
             if Z_fixed[n, l] == 1:
                 continue
             logit_p = posterior_score_MAX_AND_2D(
-                        Z[n, :], U, X[n, :], l, l_sorted, lbda_ratios)
+                        Z[n, :], U, X[n, :], l_idx, l_sorted, lbda_ratios)
             Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
 
 
-@jit('int32(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
+@jit('float64(int8[:], int8[:,:], int8[:], int64, int64[:], float32[:, :, :])', 
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
-    Return count of correct/incorrect explanations
-    caused by setting Z[n,l] to 1, respecting
-    explaining away dependencies.
+    Return the change in log-likelihood caused by setting
+    Z[n,l_sorted[l]] to 1, respecting explaining away dependencies.
     """
     D, L = U.shape
 
-    score = np.int32(0)
+    score = np.float64(0)
     for d in range(D):
-        if U[d, l] != 1:  # AND
+        if U[d, l_sorted[l]] != 1:  # AND
             continue
 
         alrdy_active = False
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9237f94..86db6dd 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -43,10 +43,12 @@ def get_sampling_fct(mat):
     if mod == 'MAX_AND_2D':
         assert p1mod is None
         assert p2mod is None
-        from lom._numba.max_machine_sampler import draw_MAX_AND_2D
+        from lom._numba.max_machine_sampler import draw_MAX_AND_2D, compute_lbda_ratios
 
         def MAX_AND_2D(mat):
-            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
+            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int64)
+            # dispersion may have been set since the ratios were last computed
+            compute_lbda_ratios(mat.layer)
             draw_MAX_AND_2D(
                 mat(),
                 mat.fixed_entries,
-- 
2.43.0


From dc105b16e709c90f45f764b7653a11240e421225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 13/48] fix: MAX-AND outputs take the largest active dispersion

---
 lom/_numba/lom_outputs.py       | 2 +-
 lom/_numba/lom_outputs_fuzzy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 2a4a4f2..302bd39 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -254,7 +254,7 @@ def XOR_NAND_product_3d(u, z, v):
 def MAX_AND_product_2d(factors, lbdas):
 
     out = np.zeros([f.shape[0] for f in factors])
-    for l_idx in np.argsort(lbdas[:-1]):
+    for l_idx in np.argsort(-lbdas[:-1]):
         temp = lbdas[l_idx] * OR_AND_product_expand(
             *[f[:, l_idx] for f in factors])
         out[out == 0] = temp[out == 0]
diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index 3a2bfde..30fac2c 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -221,7 +221,7 @@ def MAX_AND_product_fuzzy(Z, U, lbdas):
                     if l1 == l2:
                         continue
                     temp2 = Z[n, l2] * U[d, l2]
-                    if temp2 * lbdas[l2] > temp1:
+                    if lbdas[l2] > lbdas[l1] or (lbdas[l2] == lbdas[l1] and l2 < l1):
                         prod *= 1 - temp2
                 acc += temp1 * prod
             out[n, d] = acc
-- 
2.43.0


From 70deb1cf120d2e5393366c969d4c2db200f09020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 14/48] fix: qL-AND samples its posterior given data,
 dispersion, prior and fixed entries

---
 lom/_numba/matrix_updates_numba.py | 48 ++++++++++++++++++------------
 lom/machine.py                     |  1 +
 lom/matrix_update_wrappers.py      | 16 +++++++---
 3 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 468d88c..f00dcb4 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -520,15 +520,15 @@ def random_choice(p):
         acc += p[i]
         if rand_float < acc:
             return np.int8(i + 1)
-    return len(p) + 1
+    return np.int8(len(p))
 
 
 # @jit('int8(int8[:], int8[:,:], int8[:], float64, float64, float64, int8)',
 #      nopython=True, nogil=True)
 # def draw_q_d(X_d, Z, U_d, p_lbda, m_lbda, gamma, q_max):
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)', nopython=True, nogil=True)
-def sample_qL_q(Z, U, X, q, lbda, gamma):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)', nopython=True, nogil=True)
+def sample_qL_q(Z, U, X, q, q_fixed, lbda, gamma):
 
     N, D = X.shape
     q_max = 6
@@ -538,6 +538,8 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
     logconditional = np.zeros((q_max - 1, D), dtype=np.float64)
 
     for d in prange(D):
+        if q_fixed[0, d] == 1:
+            continue
 
         for q_new in prange(q_max - 1):  # shift by one to have q values and indices agree
 
@@ -546,13 +548,17 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
                 gamma - lgamma(q_new + 2)
 
             # compute loglikelihoods
-            true_predictions = np.sum(np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1)
-            logconditional[q_new, d] = logconditional[q_new, d] + true_predictions * p_lbda +\
-                (N - true_predictions) * m_lbda
+            # (correctly and incorrectly predicted observations)
+            counts = np.dot((Z + 1) / 2, (U[d, :] + 1) / 2)
+            predictions = 2 * (counts >= q_new + 1) - 1
+            correct = np.sum(predictions == X[:, d])
+            incorrect = np.sum(predictions == -X[:, d])
+            logconditional[q_new, d] = logconditional[q_new, d] - correct * m_lbda -\
+                incorrect * p_lbda
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-        log_p_max = np.max(logconditional)
+        log_p_max = np.max(logconditional[:, d])
         for q_new in prange(q_max - 1):
             logconditional[q_new, d] = np.exp(logconditional[q_new, d] - log_p_max)
 
@@ -563,14 +569,14 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
         # q[0, d] = np.argmax(logconditional[:, d]) + 1
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
 def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     """
     # TODO: numba
     """
     D, L = U.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for d in range(D):
         if U[d, l] != 1:
@@ -597,11 +603,11 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     return score
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
 def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     N, L = Z.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for n in range(N):
         if Z[n, l] != 1:
@@ -624,8 +630,8 @@ def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     return score
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_Z(Z, U, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)', nopython=True, nogil=True)
+def sample_qL_factors_Z(Z, Z_fixed, U, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -634,15 +640,17 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_Z(
+            if Z_fixed[n, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_Z(
                 Z[n, :], U, X[n, :], l, q)
             Z[n, l] = flip_metropolised_gibbs_numba(
-                logit_score, Z[n, l])
+                logit_score + logit_prior, Z[n, l])
     return
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_U(U, Z, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)', nopython=True, nogil=True)
+def sample_qL_factors_U(U, U_fixed, Z, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -652,8 +660,10 @@ def sample_qL_factors_U(U, Z, X, q, lbda):
     D, L = U.shape
     for d in prange(D):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_U(
+            if U_fixed[d, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_U(
                 U[d, :], Z, X[d, :], l, q[0, d])
             U[d, l] = flip_metropolised_gibbs_numba(
-                logit_score, U[d, l])
+                logit_score + logit_prior, U[d, l])
     return
diff --git a/lom/machine.py b/lom/machine.py
index 7e234f5..2bc7484 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -401,6 +401,7 @@ class MachineLayer():
                         self.u()[d, :],
                         self.z()[n, :],
                         self.q()[0, d])
+            out = (1 + out) * .5  # map to probability of emitting a 1
 
         else:
             if technique == 'point_estimate':
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 86db6dd..bbf9b20 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -68,19 +68,25 @@ def get_sampling_fct(mat):
                 q.layer.factors[1](),
                 q.layer.child(),
                 q(),
+                q.fixed_entries,
                 q.layer.lbda(),
                 q.layer.gamma)
 
-        mat.layer.q.sampling_fct = q_sampler
+        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
 
-        if mat.child_axis == 0:
+        if mat is mat.layer.q:
+            return q_sampler
+
+        elif mat.child_axis == 0:
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    logit_bernoulli_prior)
 
             return qL_sampler_Z
 
@@ -88,10 +94,12 @@ def get_sampling_fct(mat):
             def qL_sampler_U(mat):
                 numba_mu.sample_qL_factors_U(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    logit_bernoulli_prior)
 
             return qL_sampler_U
 
-- 
2.43.0


From 75cf5e29be293b85ed0035345602d95bb516484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 15/48] fix: IBP masks of fixed entries follow the latent
 dimensions

---
 lom/_numba/matrix_updates_numba.py | 15 +++++++++++++--
 lom/matrix_update_wrappers.py      | 18 +++++++++++-------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index f00dcb4..fc3b22a 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -381,13 +381,20 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
     return sampling_fct
 
 
-def sample_2d_IBP(Z, U, X, lbda, q, alpha):
+def sample_2d_IBP(Z, U, X, lbda, q, alpha, Z_fixed=None, U_fixed=None):
     """
     IBP update procedure for 2D OrMachine, drawing U and Z where
     U has flat prior and Z comes from IBP with concentration parameter alpha.
     Z[n,l], U[d,l], X[n,d], q: Bernoulli prior, alpha: IPB concentration parameter.
+    The masks of fixed entries only follow the change in dimensions, they are not
+    considered here.
     """
 
+    if Z_fixed is None:
+        Z_fixed = np.zeros(Z.shape, dtype=np.int8)
+    if U_fixed is None:
+        U_fixed = np.zeros(U.shape, dtype=np.int8)
+
     # lbda = lr.lbda.val
     # alpha = lr.alpha
     # X = lr.child()
@@ -435,6 +442,8 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
         # remove marked columns
         Z = Z[:, columns_to_keep]
         U = U[:, columns_to_keep]
+        Z_fixed = Z_fixed[:, columns_to_keep]
+        U_fixed = U_fixed[:, columns_to_keep]
         L = columns_to_keep.sum()
 
         # draw number of new dishes (columns)
@@ -469,6 +478,8 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
             Z = np.hstack([Z, np.full([N, L_new], fill_value=-1, dtype=np.int8)])
             Z[n, -L_new:] = 1
             U = np.hstack([U, 2 * np.zeros([D, L_new], dtype=np.int8) - 1])
+            Z_fixed = np.hstack([Z_fixed, np.zeros([N, L_new], dtype=np.int8)])
+            U_fixed = np.hstack([U_fixed, np.zeros([D, L_new], dtype=np.int8)])
 
             # sample the new hidden causes
             for l in list(range(L, L + L_new)):
@@ -482,7 +493,7 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
         # if L_new > 0:
         #     print(L_new, Z.shape[0])
 
-    return Z, U
+    return Z, U, Z_fixed, U_fixed
 
 # TODO: numba
 
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index bbf9b20..136a7c7 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -119,13 +119,17 @@ def get_sampling_fct(mat):
                 References are overwritten in the function,
                 need to return arrays.
                 """
-                mat.val, mat.siblings[0].val = numba_mu.sample_2d_IBP(
-                    mat(),
-                    mat.siblings[0](),
-                    mat.layer.child().transpose(transpose_order),
-                    mat.layer.lbda(),
-                    mat.siblings[0].bernoulli_prior,
-                    mat.layer.alpha)
+                mat.val, mat.siblings[0].val, \
+                    mat.fixed_entries, mat.siblings[0].fixed_entries = \
+                    numba_mu.sample_2d_IBP(
+                        mat(),
+                        mat.siblings[0](),
+                        mat.layer.child().transpose(transpose_order),
+                        mat.layer.lbda(),
+                        mat.siblings[0].bernoulli_prior,
+                        mat.layer.alpha,
+                        mat.fixed_entries,
+                        mat.siblings[0].fixed_entries)
 
             return IBP_sampler
 
-- 
2.43.0


From 2032830b52d3d93c98d73ca4c9a69d4168fbba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 16/48] fix: IBP traces grow with the number of latent
 dimensions

---
 lom/machine.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 2bc7484..3d11725 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -112,18 +112,25 @@ class Trace():
 
     def allocate_trace_arrays_IBP(self, no_of_samples):
         """
-        Assigned extra columns. In IBP we also need to keep track of columns that are all zero
-        at some sampling step.
+        In IBP we also need to keep track of columns that are all zero
+        at some sampling step. Columns are added when the matrix grows.
         """
         no_of_samples = int(no_of_samples)
         if type(self.val) == np.ndarray:
 
             self.trace = np.full([no_of_samples] +
                                  [self.val.shape[0]] +
-                                 [self.val.shape[1] + 10],
+                                 [self.val.shape[1]],
                                  dtype=self().dtype, fill_value=-1)
 
     def update_trace_IBP(self):
+        no_new_columns = self.val.shape[1] - self.trace.shape[2]
+        if no_new_columns > 0:
+            self.trace = np.concatenate(
+                [self.trace,
+                 np.full([self.trace.shape[0], self.trace.shape[1], no_new_columns],
+                         dtype=self.trace.dtype, fill_value=-1)], axis=2)
+
         self.trace[self.trace_index,
                    :self.val.shape[0],
                    :self.val.shape[1]] = self.val
-- 
2.43.0


From b9627960da3d26ae9d354d87a7d46d136840321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 17/48] fix: IBP draws the number and features of new
 dimensions from their conditional distribution

---
 lom/_numba/matrix_updates_numba.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index fc3b22a..7d43be2 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -409,10 +409,10 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha, Z_fixed=None, U_fixed=None):
     # data points for a range of L'
 
     # For simple Bernoulli on U
-    FN_factor = [np.log((expit(lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
-                 for L_temp in range(L_new_max)]
-    TN_factor = [np.log((expit(-lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
-                 for L_temp in range(L_new_max)]
+    # p_off: probability that none of L' new causes is active
+    p_off = [(1 - q)**L_temp for L_temp in range(L_new_max)]
+    FN_factor = [np.log((expit(lbda) * (1 - 2 * p)) + p) for p in p_off]
+    TN_factor = [np.log((expit(-lbda) * (1 - 2 * p)) + p) for p in p_off]
 
     for n in range(N):
 
@@ -459,9 +459,9 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha, Z_fixed=None, U_fixed=None):
 
         lik_L_new = [TN * TN_factor[L_temp] + FN * FN_factor[L_temp]
                      for L_temp in range(L_new_max)]
-        # L_new or L+L_new ??!
-        prior_L_new = [(L_temp + L) * np.log(alpha / N) - (alpha / N) -
-                       gammaln(L + L_temp + 1)
+        # the number of new dishes is Poisson(alpha / N) distributed
+        prior_L_new = [L_temp * np.log(alpha / N) - (alpha / N) -
+                       gammaln(L_temp + 1)
                        for L_temp in range(L_new_max)]
         log_L_new = [loglik + logprior
                      for loglik, logprior in zip(lik_L_new, prior_L_new)]
@@ -486,7 +486,7 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha, Z_fixed=None, U_fixed=None):
                 for d in range(D):
                     logit_score = lbda * posterior_score_fct(
                         U[d, :], Z, X[:, d], l)
-                    U[d, l] = flip_gibbs_numba(expit(logit_score))
+                    U[d, l] = flip_gibbs_numba(expit(logit_score + logit(q)))
 
         L += L_new
 
-- 
2.43.0


From a7199722ab2c7e5975eccc798345c915df1d7e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 18/48] fix: use the current prior in every inference

---
 lom/matrix_update_wrappers.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 136a7c7..f6250f0 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -72,8 +72,6 @@ def get_sampling_fct(mat):
                 q.layer.lbda(),
                 q.layer.gamma)
 
-        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
-
         if mat is mat.layer.q:
             return q_sampler
 
@@ -86,7 +84,7 @@ def get_sampling_fct(mat):
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return qL_sampler_Z
 
@@ -99,7 +97,7 @@ def get_sampling_fct(mat):
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return qL_sampler_U
 
@@ -137,7 +135,6 @@ def get_sampling_fct(mat):
         elif mat.child_axis == 1:
             # return lambda mat: None
             sample = numba_mu.make_sampling_fct_onechild('OR_AND_2D')
-            logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
 
             def LOM_sampler(mat):
                 # numba_mu.draw_OR_AND_2D(
@@ -147,14 +144,12 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
     # assign functions for all classical LFMs
     else:
-        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
-
         # standard case: one child, no parents
         if p1mod is None and mod is not None:
             sample = numba_mu.make_sampling_fct_onechild(mod)
@@ -167,7 +162,7 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
@@ -185,7 +180,7 @@ def get_sampling_fct(mat):
                     mat.layer.lbda(),
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -199,7 +194,7 @@ def get_sampling_fct(mat):
                     mat.fixed_entries,
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -215,7 +210,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -235,7 +230,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
-- 
2.43.0


From e10c702854cfd7adc4e84124129e9f282361480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 19/48] fix: a matrix that gets another parent layer needs a
 new sampling function

---
 lom/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index 3d11725..cd3ae90 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -536,6 +536,9 @@ class Machine():
         self.layers.append(layer)
         layer.machine = self
 
+        # the child's update now depends on this layer, too
+        child.sampling_fct = None
+
         return layer
 
     def add_matrix(self, val=None, shape=None, child_axis=None, fixed=False):
-- 
2.43.0


From ce6e59915b86f944d3fba127bbf64211ebef3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 20/48] fix: discard samples of members that are fixed in the
 current inference

---
 lom/machine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index cd3ae90..4f3fd3c 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -714,6 +714,11 @@ class Machine():
             if lbda is not None:
                 lbda.trace_index = 0
 
+        # samples of members that have been fixed since are outdated
+        for x in self.members + self.lbdas:
+            if x.fixed and 'trace' in dir(x):
+                del x.trace
+
         # burn in markov chain
         print('burning in markov chain...')
         self.burn_in(mats,
-- 
2.43.0


From b50cbfbddee447a75859b0e7d5e5217b95554fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 21/48] fix: an array of fixed entries given to add_matrix
 fixes these entries

---
 lom/machine.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 4f3fd3c..6e2d13a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -236,13 +236,14 @@ class MachineMatrix(Trace):
             self.val = 2 * np.array(np.random.rand(*shape) > .5,
                                     dtype=np.int8) - 1
 
-        # fix the full matrix
+        # fix the full matrix or, given an array, some of its entries
         if type(fixed) is np.ndarray:
-            assert fixed.shape == shape
-        self.fixed = fixed
-
-        # fix some matrix entries
-        self.fixed_entries = np.zeros(self().shape, dtype=np.int8)
+            assert fixed.shape == self().shape
+            self.fixed = False
+            self.fixed_entries = np.array(fixed, dtype=np.int8)
+        else:
+            self.fixed = fixed
+            self.fixed_entries = np.zeros(self().shape, dtype=np.int8)
 
         # initialise layer to None
         self.layer = None
-- 
2.43.0


From 728e994b2f7a4d62d433dd515d3fd4b7b4453b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 22/48] fix: output('mc') of layers with fixed factors or fixed
 dispersion

---
 lom/machine.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 6e2d13a..f283e54 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -159,6 +159,12 @@ class Trace():
         else:
             return self()
 
+    def sample(self, t):
+        """
+        Return t-th sample, or the current state of a fixed member.
+        """
+        return self.trace[t] if 'trace' in dir(self) else self()
+
     def check_convergence(self, eps):
         """
         split trace in half and check difference between means < eps
@@ -339,6 +345,14 @@ class MachineLayer():
     def dimensionality(self):
         return len(self.factors)
 
+    @property
+    def no_samples(self):
+        """
+        number of recorded samples, one (the current state) if everything is fixed
+        """
+        return max([x.trace.shape[0] for x in self.factors + [self.lbda]
+                    if 'trace' in dir(x)] + [0]) or 1
+
     def __iter__(self):
         return iter(self.factors)
 
@@ -388,11 +402,11 @@ class MachineLayer():
                         for x in self.factors], self.lbda())
             elif technique == 'mc':
                 out = np.zeros([x().shape[0] for x in self.factors])
-                for t in range(self.lbda.trace.shape[0]):
+                for t in range(self.no_samples):
                     out += lom_outputs.MAX_AND_product_2d(
-                        [x.trace[t, :] for x in self.factors],
-                        self.lbda.trace[t])
-                out /= self.lbda.trace.shape[0]
+                        [x.sample(t) for x in self.factors],
+                        self.lbda.sample(t))
+                out /= self.no_samples
             elif technique == 'factor_mean':
                 out = lom_outputs_fuzzy.MAX_AND_product_fuzzy(
                     .5 * (self.z.mean() + 1),
@@ -438,11 +452,11 @@ class MachineLayer():
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
 
-                for t in range(self.lbda.trace.shape[0]):
-                    out += aux.lom_generate_data_fast([x.trace[t, :]
+                for t in range(self.no_samples):
+                    out += aux.lom_generate_data_fast([x.sample(t)
                                                        for x in self.factors],
                                                       self.model)
-                out /= self.lbda.trace.shape[0]
+                out /= self.no_samples
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             # convert to probability of generating a 1
-- 
2.43.0


From 697e3323d5932222e9e21998c658f4d8d75379ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 23/48] fix: output('factor_mean_old') returns probabilities

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index f283e54..99015be 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -448,6 +448,7 @@ class MachineLayer():
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
                     self.model)
+                out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
-- 
2.43.0


From 80704adeebe7b4cbe1ca5cb4c627e71237879f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 24/48] fix: show('map') thresholds at the posterior mean of a
 -1/1 matrix

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 99015be..e365cec 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -261,7 +261,7 @@ class MachineMatrix(Trace):
         if technique == 'mean':
             aux.plot_matrix(self.mean())
         elif technique == 'map':
-            aux.plot_matrix(self.mean() > .5)
+            aux.plot_matrix(self.mean() > 0)
         elif technique == 'state':
             aux.plot_matrix(self())
         else:
-- 
2.43.0


From 06e9a32b5f396d386bb98ea7597c6a1700d63260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 25/48] fix: add_bernoulli_noise flips -1/1 coded tensors

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index d06d02a..e0b1e47 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -542,7 +542,7 @@ def add_bernoulli_noise(X, p):
         for d in range(X.shape[1]):
             for m in range(X.shape[2]):
                 if np.random.rand() < p:
-                    X_intern[n, d, m] = ~X_intern[n, d, m]
+                    X_intern[n, d, m] = ~X_intern[n, d, m] if X.dtype == bool else -X_intern[n, d, m]
 
     return X_intern
 
-- 
2.43.0


From 3542f1d6c3aaee9b348e177a2607a2d123c51674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 26/48] fix: noise functions use the seed they are given

---
 lom/auxiliary_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index e0b1e47..b519fd9 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -552,7 +552,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
     print('X needs to be in -1, 1 mapping!')
 
     if seed is None:
-        np.random.seed(np.random.randint(1e4))
+        seed = np.random.randint(1e4)
+    np.random.seed(seed)
 
     X_intern = X.copy()
 
@@ -567,7 +568,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
 def add_bernoulli_noise_2d_biased(X, p_plus, p_minus, seed=None):
 
     if seed is None:
-        np.random.seed(np.random.randint(1e4))
+        seed = np.random.randint(1e4)
+    np.random.seed(seed)
 
     X_intern = X.copy()
 
-- 
2.43.0


From 1005cc983c405157a4c1fe752a4e9891c2439f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 27/48] fix: get_roc_auc evaluates all held-out cells

---
 lom/auxiliary_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index b519fd9..c3594d4 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -8,7 +8,7 @@ Various auxiliary functions
 import numpy as np
 import sys
 import tempfile
-import sklearn
+import sklearn.metrics
 import itertools
 from lom._numba import lambda_updates_numba
 # import lom._cython.matrix_updates as cf
@@ -293,8 +293,9 @@ def get_roc_auc(data, data_train, prediction):
     compute area under the roc curve
     """
 
-    zero_idx = np.where(data_train == 0)
-    zero_idx = zip(list(zero_idx)[0], list(zero_idx)[1])
+    # held-out cells, i.e. not the ones that are missing in the data
+    zero_idx = np.where((data_train == 0) & (data != 0))
+    zero_idx = list(zip(*zero_idx))
     auc = sklearn.metrics.roc_auc_score(
         [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])
 
-- 
2.43.0


From 6cd0f7bbf1a1c4486841015a48be0a8e10ce637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 28/48] fix: split_train_test does not depend on the removed
 np.int

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 72c282e..659a99a 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -170,7 +170,7 @@ def split_train_test(tensor, split=.1, balanced=False):
     def index_generator():
         return tuple([np.random.randint(dim) for dim in tensor.shape])
 
-    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=np.int)
+    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=int)
     i = 0
 
     if balanced is False:
-- 
2.43.0


From 0f80f6f88169fdf190d2e6d415650c8b88af43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 29/48] fix: default models of
 LOM_hyperparms_parallel_gridsearch

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 659a99a..944f005 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -322,7 +322,7 @@ def LOM_hyperparms_parallel_gridsearch(X,
     import pandas as pd
 
     if machines is None:
-        machines = aux.canonical_loms()
+        machines = lib.canonical_loms()
 
     # train/test split
     make_split = True
-- 
2.43.0


From 6f1760f144b6db1919bff80ee1d49e73d5f7d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 30/48] fix: expected density of XOR-XOR models for more than
 two factors

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index c3594d4..c0ce69a 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1093,7 +1093,7 @@ def expected_density(model, L, K, f):
     elif model_group == 'XOR-XOR':
         d = Inv[0](L * (
             Inv[1](K * f * (invert(f))**(K - 1) *
-                   (f**K + invert(f)**(K)) ** (L - 1))
+                   (1 - K * f * (invert(f))**(K - 1)) ** (L - 1))
         ))
 
     return d
-- 
2.43.0


From 5066dbaaeb6c8eab231a26bff9010b759eb2c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:39 +0000
Subject: [PATCH 31/48] fix: factor_density finds solutions at the boundary and
 between its initial guesses

---
 lom/auxiliary_functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index c0ce69a..2d7b689 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1119,8 +1119,11 @@ def factor_density(machine, L, K, X):
     tau = np.linspace(0, 1, 201)
 
     # Use the numerical solver to find the roots
-    best = 1e10
-    for tau_initial_guess in [.01, .25, .5, .75, .99]:
+    # (start at the closest grid point, too, which may be 0 or 1)
+    closest = tau[np.argmin([np.abs(func(t)) for t in tau])]
+    best = np.abs(func(closest))
+    best_solution = np.array([closest])
+    for tau_initial_guess in [.01, .25, .5, .75, .99, closest]:
         tau_solution = fsolve(func, tau_initial_guess,
                               maxfev=int(1e6), full_output=False,
                               xtol=1e-10, factor=10)
-- 
2.43.0


From cfb7b13debd5b3c6a8dda04f3289f56092713483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 32/48] fix: split_test_train recodes unsigned 0/1 data

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 2d7b689..2499c11 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -349,7 +349,7 @@ def split_test_train(data, p=.1):
     import itertools
 
     if not -1 in np.unique(data):
-        data = 2 * data - 1
+        data = check_binary_coding(data)
 
     num_of_zeros = np.prod(data.shape) * p
     index_pairs = list(itertools.product(range(data.shape[0]), range(data.shape[1])))
-- 
2.43.0


From ca309117583aa708c2f1dfdab7c929275a0a103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 33/48] fix: removing a dimension adjusts the layers above the
 parents of its factors

---
 lom/auxiliary_functions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 2499c11..f0d5495 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -159,14 +159,21 @@ def remove_dimension(l_prime, layer):
         f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
         # the columns of f are the rows of its parents' second factors
         for parent in f.parents:
-            parent.u.val = np.delete(parent.u.val, l_prime, axis=0)
-            parent.u.fixed_entries = np.delete(parent.u.fixed_entries, l_prime, axis=0)
+            remove_row(parent.u, l_prime)
 
     # one dispersion parameter per dimension (and the baseline)
     if layer.model == 'MAX-AND':
         layer.lbda.val = np.delete(layer.lbda.val, l_prime)
 
 
+def remove_row(mat, n):
+    mat.val = np.delete(mat.val, n, axis=0)
+    mat.fixed_entries = np.delete(mat.fixed_entries, n, axis=0)
+    # the rows of mat are the rows of its parents' first factors
+    for parent in mat.parents:
+        remove_row(parent.z, n)
+
+
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
         f.val[:, l_prime] = -1
-- 
2.43.0


From 4b2016ca3ffbe94ebacc2c4f5ecab34892875f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 34/48] fix: output leaves the model of the layer alone, also
 when it fails

---
 lom/machine.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index e365cec..99d4719 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -386,13 +386,11 @@ class MachineLayer():
                   'under disregard of technique.')
             return self.prediction
 
-        reset_name_to_IBP = False
-        if self.model == 'OR-AND-IBP':
-            reset_name_to_IBP = True
-            self.model = 'OR-AND'
+        # factors combine in the same way
+        model = 'OR-AND' if self.model == 'OR-AND-IBP' else self.model
 
         # otherwise compute
-        if self.model == 'MAX-AND':
+        if model == 'MAX-AND':
             if technique == 'point_estimate':
                 out = lom_outputs.MAX_AND_product_2d(
                     [x() for x in self.factors], self.lbda())
@@ -413,7 +411,7 @@ class MachineLayer():
                     .5 * (self.u.mean() + 1),
                     self.lbda.mean())
 
-        elif self.model == 'qL-AND':
+        elif model == 'qL-AND':
             N, D = self.child().shape
             out = np.zeros([N, D])
             for n in range(N):
@@ -428,26 +426,26 @@ class MachineLayer():
         else:
             if technique == 'point_estimate':
                 out = aux.lom_generate_data_fast(
-                    [x() for x in self.factors], self.model)
+                    [x() for x in self.factors], model)
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'factor_map':
                 out = aux.lom_generate_data_fast(
                     [2 * (x.mean() > 0) - 1 for x in self.factors],
-                    self.model)
+                    model)
                 out = np.array(out == 1, dtype=np.int8)  # map to probability of emitting a 1
 
             elif technique == 'factor_mean':
                 # output does not need to be mapped to probabilities
                 out = aux.lom_generate_data_fast(
                     [(x.mean() + 1) * .5 for x in self.factors],  # map to (0,1)
-                    self.model,
+                    model,
                     fuzzy=True)
 
             elif technique == 'factor_mean_old':
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
-                    self.model)
+                    model)
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
@@ -456,7 +454,7 @@ class MachineLayer():
                 for t in range(self.no_samples):
                     out += aux.lom_generate_data_fast([x.sample(t)
                                                        for x in self.factors],
-                                                      self.model)
+                                                      model)
                 out /= self.no_samples
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
@@ -467,9 +465,6 @@ class MachineLayer():
 
         self.prediction = out
 
-        if reset_name_to_IBP is True:
-            self.model = 'OR-AND-IBP'
-
         if map_to_probabilities is True:
             return out
         else:
-- 
2.43.0


From f716620586f891a15a7c9b1adccee99e5692fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 35/48] fix: lazy output honours map_to_probabilities

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 99d4719..db26e77 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -384,7 +384,7 @@ class MachineLayer():
         if type(self.prediction) is np.ndarray and lazy is True:
             print('returning previously computed value ' +
                   'under disregard of technique.')
-            return self.prediction
+            return self.prediction if map_to_probabilities is True else 2 * self.prediction - 1
 
         # factors combine in the same way
         model = 'OR-AND' if self.model == 'OR-AND-IBP' else self.model
-- 
2.43.0


From 42234cf408559e5d28dd1a591b358c6db29830c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 36/48] fix: matrices without negative entries are displayed as
 probabilities, too

---
 lom/machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index db26e77..dbd2241 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -259,11 +259,11 @@ class MachineMatrix(Trace):
 
     def show(self, technique='mean'):
         if technique == 'mean':
-            aux.plot_matrix(self.mean())
+            aux.plot_matrix(.5 * (1 + self.mean()))
         elif technique == 'map':
             aux.plot_matrix(self.mean() > 0)
         elif technique == 'state':
-            aux.plot_matrix(self())
+            aux.plot_matrix(.5 * (1 + self()))
         else:
             raise ValueError('invalid technique')
 
-- 
2.43.0


From bb50a91b9139ebdc29e31bc0a2e9bce2c455264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 37/48] fix: intersect_dataframes reports the shape of its
 result

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index f0d5495..2fd3227 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -631,7 +631,7 @@ def intersect_dataframes(A, B):
     assert np.all(A.index == B.index)
     assert np.all(A.columns == B.columns)
 
-    print('\n\tNew shape is :' + str(mut.shape))
+    print('\n\tNew shape is :' + str(A.shape))
 
     return A, B
 
-- 
2.43.0


From 6ad4400667465900081a8eb5cafda0e02e9fe5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 38/48] fix: find_centers_of_ordered_list accepts lists

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 2fd3227..f8b5f62 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1246,7 +1246,7 @@ def find_centers_of_ordered_list(ls):
     """
 
     import pandas
-    uniqs = pandas.unique(ls)
+    uniqs = pandas.unique(np.asarray(ls))
     positions = []
     for u in uniqs:
         idxs = []  # list of indices of corresponding values
-- 
2.43.0


From 76370f25b951def1a13b9861523458a29af6018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 39/48] fix: a matrix that is the child of more than two layers
 is refused

---
 lom/matrix_update_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index f6250f0..d05eadb 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -252,14 +252,14 @@ def get_relatives_models(mat):
 
     parent1_model = None
     parent2_model = None
+    if len(mat.parents) > 2:
+        raise NotImplementedError("More than two parents are not supported.")
     if len(mat.parents) > 0:
         assert len(mat.parents[0].factors) == 2
         parent1_model = (mat.parents[0].model + '-2D').replace('-', '_')
     if len(mat.parents) > 1:
         assert len(mat.parents[1].factors) == 2
         parent2_model = (mat.parents[1].model + '-2D').replace('-', '_')
-    elif len(mat.parents) > 2:
-        raise NotImplementedError("More than two parents are not supported.")
 
     return model, parent1_model, parent2_model
 
-- 
2.43.0


From 2d3a32e7cf6e5e922a3aae617556e4b456c15cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 40/48] fix: layers on top of factors of qL-AND and IBP layers
 are refused

---
 lom/matrix_update_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index d05eadb..a7b534f 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -61,6 +61,8 @@ def get_sampling_fct(mat):
         return MAX_AND_2D
 
     elif mod == 'qL_AND_2D':
+        assert p1mod is None
+        assert p2mod is None
 
         def q_sampler(q):
             numba_mu.sample_qL_q(
@@ -104,6 +106,8 @@ def get_sampling_fct(mat):
     # assign sampling functions for IBP.
     # Here all updates happen in sampling for the first factor.
     elif mod == 'OR_AND_IBP_2D':
+        assert p1mod is None
+        assert p2mod is None
 
         if mat.layer.alpha is None:
             print('Setting IBP parameter alpha to 3.')
-- 
2.43.0


From aeba6032be59e841336d449579e286330f3b74a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 41/48] fix: an interrupted IBP update does not leave factors
 of different sizes

---
 lom/matrix_update_wrappers.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index a7b534f..cfa55ce 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -121,17 +121,18 @@ def get_sampling_fct(mat):
                 References are overwritten in the function,
                 need to return arrays.
                 """
-                mat.val, mat.siblings[0].val, \
-                    mat.fixed_entries, mat.siblings[0].fixed_entries = \
-                    numba_mu.sample_2d_IBP(
-                        mat(),
-                        mat.siblings[0](),
-                        mat.layer.child().transpose(transpose_order),
-                        mat.layer.lbda(),
-                        mat.siblings[0].bernoulli_prior,
-                        mat.layer.alpha,
-                        mat.fixed_entries,
-                        mat.siblings[0].fixed_entries)
+                u = mat.siblings[0]
+                out = numba_mu.sample_2d_IBP(
+                    mat(),
+                    u(),
+                    mat.layer.child().transpose(transpose_order),
+                    mat.layer.lbda(),
+                    u.bernoulli_prior,
+                    mat.layer.alpha,
+                    mat.fixed_entries,
+                    u.fixed_entries)
+                # all at once: both factors have the same size, always
+                mat.val, u.val, mat.fixed_entries, u.fixed_entries = out
 
             return IBP_sampler
 
-- 
2.43.0


From c758f04889e5ebb78c856c0bd1beb955cecf7e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 42/48] fix: missing data stay missing when a matrix is set to
 its posterior mode

---
 lom/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index dbd2241..df66dc8 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -283,8 +283,11 @@ class MachineMatrix(Trace):
         return sorted(siblings, key=lambda f: f.child_axis)
 
     def set_to_map(self):
+        missing = self.val == 0  # only in data, has no mode
         self.val = np.array(self.mean() > 0, dtype=np.int8)
         self.val[self.val == 0] = -1
+        if np.any(missing):
+            self.val[missing] = 0
 
 
 class MachineLayer():
-- 
2.43.0


From e62486a266fdb8b0b265de8c8abe6605696cbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 43/48] fix: thresholds of qL-AND layers are set to their
 posterior mode, not to one

---
 lom/machine.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index df66dc8..8ccc25a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -283,6 +283,13 @@ class MachineMatrix(Trace):
         return sorted(siblings, key=lambda f: f.child_axis)
 
     def set_to_map(self):
+        # the mode of thresholds (qL-AND) is their most frequent value
+        if self.layer is not None and self not in self.layer.factors:
+            if 'trace' in dir(self):
+                self.val[0, :] = [np.bincount(self.trace[:, 0, d]).argmax()
+                                  for d in range(self.val.shape[1])]
+            return
+
         missing = self.val == 0  # only in data, has no mode
         self.val = np.array(self.mean() > 0, dtype=np.int8)
         self.val[self.val == 0] = -1
-- 
2.43.0


From d7e568d9f37f4c7b8564b2695803a7eb9f67757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 44/48] fix: the masks of IBP factors follow when they are set
 to their posterior mode

---
 lom/machine.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index 8ccc25a..6719fe7 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -296,6 +296,13 @@ class MachineMatrix(Trace):
         if np.any(missing):
             self.val[missing] = 0
 
+        # samples of IBP factors can have had more dimensions
+        no_new_columns = self.val.shape[1] - self.fixed_entries.shape[1]
+        if no_new_columns > 0:
+            self.fixed_entries = np.concatenate(
+                [self.fixed_entries,
+                 np.zeros([self.val.shape[0], no_new_columns], dtype=np.int8)], axis=1)
+
 
 class MachineLayer():
 
-- 
2.43.0


From f3d5fc66ec5cbbfad6fc7a1bc0c5e91a04dd97ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 45/48] fix: compute_bp returns N values, with numpy 2, too

---
 lom/auxiliary_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index f8b5f62..74f93cf 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -68,11 +68,11 @@ def compute_bp(q, n, N, tau=1):
 
     exp_bp = [(q * (n - k * tau)) / ((1 - q) * (k * tau + 1)) for k in range(n)]
 
-    bp = [np.log(x) if (x > 0) else -np.infty for x in exp_bp]
+    bp = [np.log(x) if (x > 0) else -np.inf for x in exp_bp]
 
     if N != n:
-        bp_new = [-np.infty for i in range(N)]
-        bp_new[:n - 1] = bp
+        bp_new = [-np.inf for i in range(N)]
+        bp_new[:n] = bp
         bp = bp_new
     return np.array(bp, dtype=float)
 
-- 
2.43.0


From 1caafe490a9a7626970307b89b1cbf8f378f6450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 46/48] fix: compute_bbp with a uniform prior, and with numpy 2

---
 lom/auxiliary_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 74f93cf..035b1f6 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -83,8 +83,8 @@ def compute_bbp(n, a, b):
     beta parameters a, b.
     """
     exp_bbp = [(float((n - k) * (k + a)) /
-                float((k + 1) * (n - k + b - 1))) for k in range(n + 1)]
-    bbp = [np.log(x) if (x > 0) else -np.infty for x in exp_bbp]
+                float((k + 1) * (n - k + b - 1))) if k < n else 0. for k in range(n + 1)]
+    bbp = [np.log(x) if (x > 0) else -np.inf for x in exp_bbp]
     return np.array(bbp, dtype=float)
 
 
-- 
2.43.0


From b0fbf8295a25f7ecd2c44ff7c01f7adffcb5349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 47/48] fix: the relevance of MAX-AND dimensions is that of the
 samples held

---
 lom/_numba/max_machine_sampler.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 2577bd8..5512747 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -198,11 +198,6 @@ def maxmachine_relevance(layer, model_type='mcmc'):
     This is similiar to the eigenvalues in PCA.
     """
 
-    # avoid unnecessary re-computation.
-    if layer.eigenvals is not None:
-        return layer.eigenvals
-
-
     if model_type is 'plugin': 
         alphas = layer.lbda()
         x = layer.child()
-- 
2.43.0


From d3f9329dd8f2c56fc63290c15eae81b8827728ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 48/48] fix: plot_codes finds the relevance of dimensions

---
 lom/auxiliary_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 035b1f6..9b109d1 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -260,6 +260,7 @@ def plot_codes(mat, attributes=None, order='relevance'):
     """
 
     import matplotlib.pyplot as plt
+    from lom._numba.max_machine_sampler import maxmachine_relevance
 
     try:
         import seaborn as sns
-- 
2.43.0

