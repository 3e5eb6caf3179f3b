From 5fbd8abcdd3e3a70a136be1313fcef1c28a9d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:01 +0000
Subject: [PATCH 01/16] fix: pass observation weights given to fit_mle on to
 the estimator

---
 src/pylogit/asym_logit.py        | 7 ++++++-
 src/pylogit/clog_log.py          | 7 ++++++-
 src/pylogit/conditional_logit.py | 7 ++++++-
 src/pylogit/mixed_logit.py       | 7 ++++++-
 src/pylogit/nested_logit.py      | 7 ++++++-
 src/pylogit/scobit.py            | 7 ++++++-
 src/pylogit/uneven_logit.py      | 7 ++++++-
 7 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 301dc9a..a277c7c 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -927,6 +927,7 @@ class MNAL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -989,6 +990,9 @@ class MNAL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Contains one non-negative weight per row of the long format data.
+            If None, every row has a weight of one. Default == None.
 
         Returns
         -------
@@ -1073,7 +1077,8 @@ class MNAL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=weights)
         # Set the derivative functions for estimation
         asym_estimator.set_derivatives()
 
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 59ac3d0..5ec9dd0 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -621,6 +621,7 @@ class MNCL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -677,6 +678,9 @@ class MNCL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Contains one non-negative weight per row of the long format data.
+            If None, every row has a weight of one. Default == None.
 
         Returns
         -------
@@ -738,7 +742,8 @@ class MNCL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=weights)
         # Set the derivative functions for estimation
         clog_estimator.set_derivatives()
 
diff --git a/src/pylogit/conditional_logit.py b/src/pylogit/conditional_logit.py
index 9688b26..4d7849b 100644
--- a/src/pylogit/conditional_logit.py
+++ b/src/pylogit/conditional_logit.py
@@ -312,6 +312,7 @@ class MNL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -348,6 +349,9 @@ class MNL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Contains one non-negative weight per row of the long format data.
+            If None, every row has a weight of one. Default == None.
 
         Returns
         -------
@@ -383,7 +387,8 @@ class MNL(base_mcm.MNDC_Model):
                                      ridge,
                                      zero_vector,
                                      split_param_vec,
-                                     constrained_pos=constrained_pos)
+                                     constrained_pos=constrained_pos,
+                                     weights=weights)
         # Set the derivative functions for estimation
         mnl_estimator.set_derivatives()
 
diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 41716ac..5e6713b 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -500,6 +500,7 @@ class MixedLogit(base_mcm.MNDC_Model):
                 maxiter=1000,
                 ridge=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -548,6 +549,9 @@ class MixedLogit(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Contains one non-negative weight per row of the long format data.
+            If None, every row has a weight of one. Default == None.
 
         Returns
         -------
@@ -594,7 +598,8 @@ class MixedLogit(base_mcm.MNDC_Model):
                                         ridge,
                                         zero_vector,
                                         split_param_vec,
-                                        constrained_pos=constrained_pos)
+                                        constrained_pos=constrained_pos,
+                                        weights=weights)
 
         # Perform one final check on the length of the initial values
         mixl_estimator.check_length_of_initial_values(init_vals)
diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 5b3a6da..8c6a81a 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -447,6 +447,7 @@ class NestedLogit(base_mcm.MNDC_Model):
                 maxiter=1000,
                 ridge=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -486,6 +487,9 @@ class NestedLogit(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Contains one non-negative weight per row of the long format data.
+            If None, every row has a weight of one. Default == None.
 
         Returns
         -------
@@ -529,7 +533,8 @@ class NestedLogit(base_mcm.MNDC_Model):
                           ridge,
                           zero_vector,
                           split_param_vec]
-        estimator_kwargs = {"constrained_pos": final_constrained_pos}
+        estimator_kwargs = {"constrained_pos": final_constrained_pos,
+                            "weights": weights}
         nested_estimator = NestedEstimator(*estimator_args,
                                            **estimator_kwargs)
 
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 13256f8..9f05eba 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -737,6 +737,7 @@ class MNSL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -798,6 +799,9 @@ class MNSL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Contains one non-negative weight per row of the long format data.
+            If None, every row has a weight of one. Default == None.
 
         Returns
         -------
@@ -880,7 +884,8 @@ class MNSL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=weights)
         # Set the derivative functions for estimation
         scobit_estimator.set_derivatives()
 
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 701e722..87df17b 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -737,6 +737,7 @@ class MNUL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -798,6 +799,9 @@ class MNUL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Contains one non-negative weight per row of the long format data.
+            If None, every row has a weight of one. Default == None.
 
         Returns
         -------
@@ -881,7 +885,8 @@ class MNUL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=weights)
         # Set the derivative functions for estimation
         uneven_estimator.set_derivatives()
 
-- 
2.43.0


From 6d76e212c054fee258889c4257df20a19e5166e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:19 +0000
Subject: [PATCH 02/16] fix: do not modify the caller's mnl_fit_kwargs when
 bootstrapping

---
 src/pylogit/bootstrap_mle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index 7556ef7..ab15df2 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -202,7 +202,9 @@ def get_mnl_point_est(orig_model_obj,
         if mnl_fit_kwargs is None:
             mnl_fit_kwargs = {}
 
-    # Alter the mnl_fit_kwargs to ensure that we only perform point estimation
+    # Alter a copy of mnl_fit_kwargs (the original belongs to the caller) to
+    # ensure that we only perform point estimation
+    mnl_fit_kwargs = dict(mnl_fit_kwargs)
     mnl_fit_kwargs["just_point"] = True
     # Use BFGS by default to estimate the MNL since it works well for the MNL.
     if "method" not in mnl_fit_kwargs:
-- 
2.43.0


From 3fc723cdf68ba845657cd31c250b2c2de13db05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:45 +0000
Subject: [PATCH 03/16] fix: apply the fit options of a bootstrapped MNL model
 to its refits

---
 src/pylogit/bootstrap_mle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index ab15df2..4867e42 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -291,6 +291,11 @@ def retrieve_point_est(orig_model_obj,
         The dictionary returned by `scipy.optimize` after estimating the
         desired choice model.
     """
+    # If the model being bootstrapped is itself an MNL, then its point estimate
+    # is the MNL point estimate, so the fit options apply to the MNL fit.
+    if orig_model_obj.model_type == model_type_to_display_name["MNL"]:
+        mnl_fit_kwargs = dict(fit_kwargs, **(mnl_fit_kwargs or {}))
+
     # Get the MNL point estimate for the parameters of this bootstrap sample.
     mnl_point, mnl_obj = get_mnl_point_est(orig_model_obj,
                                            new_df,
-- 
2.43.0


From fa2a4c9a1535def7f0378a3ea6a0b387d37d8135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:05 +0000
Subject: [PATCH 04/16] fix: use the weights given to
 generate_bootstrap_replicates when refitting

---
 src/pylogit/bootstrap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index 0dab7ae..787359c 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -333,6 +333,12 @@ class Boot(object):
                                               dfs_by_obs_id,
                                               boot_id_col=boot_id_col)
 
+            # Give each resampled row the weight of the row it was copied from.
+            if weights is not None:
+                fit_kwargs["weights"] =\
+                    np.concatenate([weights[obs_id_array == obs_id] for
+                                    obs_id in obs_id_per_sample[row, :]])
+
             # Go through the necessary estimation routine to bootstrap the MLE.
             current_results =\
                 retrieve_point_est(self.model_obj,
-- 
2.43.0


From 100f0d26665edd2adde5f5e83f8da28c456bffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 05/16] fix: allow nested logit models to be saved with
 to_pickle

---
 src/pylogit/nested_logit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 8c6a81a..5ca0f4c 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -32,6 +32,12 @@ _msg_5 = "***WILL BE INCORRECT***."
 _ridge_warning_msg = _msg_3 + _msg_4 + _msg_5
 
 
+# Define the (identity) utility transformation at the module level so that
+# nested logit objects can be pickled.
+def _nested_utility_transform(systematic_utilities, *args, **kwargs):
+    return systematic_utilities[:, None]
+
+
 # Create a function that will identify degenerate nests
 def identify_degenerate_nests(nest_spec):
     """
@@ -433,7 +439,7 @@ class NestedLogit(base_mcm.MNDC_Model):
         ##########
         # Store the utility transform function
         ##########
-        self.utility_transform = lambda x, *args, **kwargs: x[:, None]
+        self.utility_transform = _nested_utility_transform
 
         return None
 
-- 
2.43.0


From 8e0fe4af1447a5edf188e7c5128ebfedf00c57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 06/16] fix: keep user supplied names aligned with the design
 matrix columns

---
 src/pylogit/choice_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index c9653d7..c99248a 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -706,7 +706,8 @@ def create_design_matrix(long_form,
     # Use the list of names passed by the user, if the user passed such a list
     if names is not None:
         var_names = []
-        for value in names.values():
+        for variable in specification_dict:
+            value = names[variable]
             if isinstance(value, str):
                 var_names.append(value)
             else:
-- 
2.43.0


From e94aebba4c978de81a921d4a0e64d54dc99a86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 07/16] fix: order availability columns by alternative in
 convert_wide_to_long

---
 src/pylogit/choice_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index c99248a..8d6f8b1 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1630,8 +1630,7 @@ def convert_wide_to_long(wide_data,
     # Create the observation id column,
     #####
     # Determine the various availability values for each observation
-    wide_availability_values = wide_data[list(
-        availability_vars.values())].values
+    wide_availability_values = wide_data[sorted_availability_cols].values
     new_obs_id_col = (wide_availability_values *
                       wide_data[obs_id_col].values[:, None]).ravel()
     # Make sure the observation id column has an integer data type
-- 
2.43.0


From b2e98c3a44e0f1041ff78b83afa47f5e033dfcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 08/16] fix: check the number of chosen alternatives of every
 observation

---
 src/pylogit/choice_tools.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 8d6f8b1..0a40681 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -514,14 +514,13 @@ def ensure_num_chosen_alts_equals_num_obs(obs_id_col, choice_col, df):
     -------
     None.
     """
-    num_obs = df[obs_id_col].unique().shape[0]
-    num_choices = df[choice_col].sum()
+    num_choices_per_obs = df.groupby(obs_id_col)[choice_col].sum()
 
-    if num_choices < num_obs:
+    if (num_choices_per_obs < 1).any():
         msg = "One or more observations have not chosen one "
         msg_2 = "of the alternatives available to him/her"
         raise ValueError(msg + msg_2)
-    if num_choices > num_obs:
+    if (num_choices_per_obs > 1).any():
         msg = "One or more observations has chosen multiple alternatives"
         raise ValueError(msg)
 
-- 
2.43.0


From 5ecb10d1547e117e8b5aeefaf579dbe4bb4a291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 09/16] fix: give each wide format observation its own choice

---
 src/pylogit/choice_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 0a40681..dbc0087 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1142,8 +1142,10 @@ def convert_long_to_wide(long_data,
     #####
     # Create the choice column in the wide data format
     #####
-    new_df[choice_col] = long_data.loc[long_data[choice_col] == 1,
-                                       alt_id_col].values
+    chosen_rows = long_data.loc[long_data[choice_col] == 1]
+    chosen_alts = pd.Series(chosen_rows[alt_id_col].values,
+                            index=chosen_rows[obs_id_col].values)
+    new_df[choice_col] = chosen_alts.loc[new_df[obs_id_col].values].values
 
     #####
     # Create the availability columns
-- 
2.43.0


From 345ad2274264f7d5446bb4d87293f8fe30c1b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 10/16] fix: return chosen and long probabilities for nested
 and mixed logit

---
 src/pylogit/base_multinomial_cm_v2.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 22cb803..4c5344b 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1913,7 +1913,9 @@ class MNDC_Model(object):
             # Get the 'natural' nest coefficients for prediction
             new_natural_nests = naturalize_nest_coefs(new_nest_coefs)
             # Determine the return string for the nested logit model
-            if return_long_probs:
+            if return_long_probs and new_chosen_to_obs is not None:
+                return_string = "long_and_chosen_probs"
+            elif return_long_probs:
                 return_string = "long_probs"
             else:
                 return_string = "chosen_probs"
@@ -1956,8 +1958,10 @@ class MNDC_Model(object):
                            "shape_params": new_shape_params,
                            "chosen_row_to_obs": new_chosen_to_obs,
                            "return_long_probs": return_long_probs}
-            prob_array = calc_probabilities(*prob_args, **prob_kwargs)
-            return prob_array.mean(axis=1)
+            prob_results = calc_probabilities(*prob_args, **prob_kwargs)
+            if isinstance(prob_results, tuple):
+                return tuple(x.mean(axis=1) for x in prob_results)
+            return prob_results.mean(axis=1)
 
         else:
             return calc_probabilities(new_index_coefs,
-- 
2.43.0


From 374c164508557d51ad1e2f6287f9e831f7ba66fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 11/16] fix: pair past choices with their own draws in
 panel_predict

---
 src/pylogit/mixed_logit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 5e6713b..45d87e1 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -874,7 +874,12 @@ class MixedLogit(base_mcm.MNDC_Model):
 
         # Create the 3D design matrix for those choice situations, using the
         # draws that were just taken from the mixing distributions of interest.
-        past_draw_list = [x[new_unique_mix_id_repeats, :] for x in draw_list]
+        # Note that the draws are placed in the order of the original mixing
+        # ids since that is the column order of past_mappings["rows_to_mixers"]
+        repeat_ids_old = orig_order_unique_ids_old[old_unique_mix_id_repeats]
+        past_draw_idx = np.array([np.where(orig_order_unique_ids_new == x)[0][0]
+                                  for x in repeat_ids_old], dtype=int)
+        past_draw_list = [x[past_draw_idx, :] for x in draw_list]
         design_args = (past_design_2d,
                        past_draw_list,
                        self.mixing_pos,
-- 
2.43.0


From a6382be69718592b41c418daff9a94a005f24230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:29 +0000
Subject: [PATCH 12/16] fix: keep the probabilities of chosen rows above zero

---
 src/pylogit/choice_calcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index 5e24be5..fd61810 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -175,6 +175,8 @@ def calc_probabilities(beta,
         else:
             chosen_probs = (chosen_exponentials /
                             individual_denominators).ravel()
+        # Prevent chosen_probs from going to zero, just as for long_probs
+        chosen_probs[chosen_probs == 0] = min_comp_value
 
     # Return the long form and chosen probabilities if desired
     if return_long_probs and chosen_probs is not None:
-- 
2.43.0


From d0fb08799f2dea218ae6532e738d18d971717539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:29 +0000
Subject: [PATCH 13/16] fix: finite scobit shape derivatives when the powered
 term overflows

---
 src/pylogit/scobit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 9f05eba..34ad867 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -362,11 +362,11 @@ def _scobit_transform_deriv_shape(systematic_utilities,
     # Guard against overflow from v --> -inf.
     too_small_idx = np.isposinf(exp_neg_v)
     curve_derivs[too_small_idx] = max_comp_value
-    # Guard against overflow from moderate v but shape --> inf.
-    shape_too_big_idx = np.where((np.abs(systematic_utilities) <= 10) &
+    # Guard against overflow from finite exp(-v) but shape --> inf.
+    shape_too_big_idx = np.where(np.isfinite(exp_neg_v) &
                                  np.isposinf(powered_term))
     curve_derivs[shape_too_big_idx] =\
-        (-1 * np.log1p(exp_neg_v))[shape_too_big_idx]
+        (-1 * np.log1p(exp_neg_v) * long_curve_shapes)[shape_too_big_idx]
 
     # Assign the calculated derivatives to the output array
     output_array.data = curve_derivs
-- 
2.43.0


From f57344c2fb91230d8b860fef751bace22cc7497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:45 +0000
Subject: [PATCH 14/16] fix: divide each ABC quadratic coefficient by its own
 denominator

The numerator is restricted to the parameters whose refits differ, but the
denominator was not, so a single unaffected parameter raised a broadcasting
error (or scaled a coefficient by another parameter's standard error).
---
 src/pylogit/bootstrap_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_abc.py b/src/pylogit/bootstrap_abc.py
index 91a5885..b773d68 100644
--- a/src/pylogit/bootstrap_abc.py
+++ b/src/pylogit/bootstrap_abc.py
@@ -743,7 +743,7 @@ def efron_quadratic_coef_abc(model_object,
     if diff_idx.any():
         quadratic_coef[diff_idx] =\
             ((term_1[diff_idx] - term_2[diff_idx] + term_3[diff_idx]) /
-             denominator)
+             denominator[diff_idx])
     return quadratic_coef
 
 
-- 
2.43.0


From 7f404c9160f291a81db1c3fccc796c7999af7f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:31 +0000
Subject: [PATCH 15/16] fix: keep one probability column per draw when mixed
 logit uses a single draw

---
 src/pylogit/choice_calcs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index fd61810..d96a0fc 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -156,7 +156,11 @@ def calc_probabilities(beta,
     individual_denominators = np.asarray(rows_to_obs.transpose().dot(
                                                     long_exponentials))
     long_denominators = np.asarray(rows_to_obs.dot(individual_denominators))
-    if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+    # With a 3D design matrix, keep one column per draw, even for a single draw
+    keep_columns = (len(design.shape) == 3 or
+                    (len(long_exponentials.shape) > 1 and
+                     long_exponentials.shape[1] > 1))
+    if keep_columns:
         long_probs = (long_exponentials / long_denominators)
     else:
         long_probs = (long_exponentials / long_denominators).ravel()
@@ -170,7 +174,7 @@ def calc_probabilities(beta,
         # chosen_probs will be of shape (num_observations,)
         chosen_exponentials = np.asarray(
                          chosen_row_to_obs.transpose().dot(long_exponentials))
-        if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+        if keep_columns:
             chosen_probs = chosen_exponentials / individual_denominators
         else:
             chosen_probs = (chosen_exponentials /
-- 
2.43.0


From 7105e068da2c31e1926fe29c4ab53a1daa1e2fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:59 +0000
Subject: [PATCH 16/16] fix: accept contiguous observation rows whose ids are
 not in ascending order

---
 src/pylogit/choice_tools.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index dbc0087..71fb989 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1451,11 +1451,13 @@ def ensure_contiguity_in_observation_rows(obs_id_vector):
     -------
     None.
     """
-    # Check that the choice situation id for each row is larger than or equal
-    # to the choice situation id of the preceding row.
-    contiguity_check_array = (obs_id_vector[1:] - obs_id_vector[:-1]) >= 0
-    if not contiguity_check_array.all():
-        problem_ids = obs_id_vector[np.where(~contiguity_check_array)]
+    # Find the rows where a new block of identical choice situation ids begins,
+    # and check that each choice situation id begins only one such block.
+    block_starts = np.append(True, obs_id_vector[1:] != obs_id_vector[:-1])
+    block_ids, num_blocks = np.unique(obs_id_vector[block_starts],
+                                      return_counts=True)
+    if (num_blocks > 1).any():
+        problem_ids = block_ids[num_blocks > 1]
         msg_1 = "All rows pertaining to a given choice situation must be "
         msg_2 = "contiguous. \nRows pertaining to the following observation "
         msg_3 = "id's are not contiguous: \n{}"
-- 
2.43.0

