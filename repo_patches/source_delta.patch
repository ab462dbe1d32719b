From 48b185d8a705f6bd3fe3b1f256683a48966d1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 01/54] fix: bin fractions of an empty template are zero, not
 nan

---
 templatefitter/templates/abstract_template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index cd21244..a7be623 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -240,4 +240,6 @@ class AbstractTemplate(ABC):
 @jit(nopython=True)
 def bin_fractions(nui_params, bin_counts, rel_errors):
     per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
+    if np.sum(per_bin_yields) == 0.:
+        return np.zeros_like(per_bin_yields)
     return per_bin_yields / np.sum(per_bin_yields)
-- 
2.43.0


From 1ac457ed8d6300788050f1a9c1f0accafa2164a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 02/54] fix: Template2d.add_variation adds the covariance of
 the variation

---
 templatefitter/templates/template2d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 7d951c9..9f6cc49 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from templatefitter.histograms import Hist2d
 from templatefitter.templates import AbstractTemplate
+from templatefitter.utility import get_systematic_cov_mat
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
@@ -57,7 +58,10 @@ class Template2d(AbstractTemplate):
             bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
         )
 
-        self._add_cov_mat(hup, hdown)
+        cov_mat = get_systematic_cov_mat(
+            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
+        )
+        self._add_cov_mat(cov_mat)
 
     def plot_on(self, fig, ax):
         """Plots the 2d template on the given axis.
-- 
2.43.0


From c77246f04951c1a68baf35d74d55305cda0315a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 03/54] fix: bin systematic variations with the template's own
 bin edges

---
 templatefitter/templates/template1d.py | 4 ++--
 templatefitter/templates/template2d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/templates/template1d.py b/templatefitter/templates/template1d.py
index f282848..814ccd3 100644
--- a/templatefitter/templates/template1d.py
+++ b/templatefitter/templates/template1d.py
@@ -45,10 +45,10 @@ class Template1d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
         cov_mat = get_systematic_cov_mat(
             self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 9f6cc49..af82086 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -52,10 +52,10 @@ class Template2d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
 
         cov_mat = get_systematic_cov_mat(
-- 
2.43.0


From f32dd1d38cbd81022589a5ed05de03101449b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 04/54] fix: channels do not use cached indices, efficiencies
 and correlations after changes

---
 templatefitter/templates/channel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 06d946f..6d8b9c0 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -1,7 +1,7 @@
 import logging
 
 from collections import OrderedDict
-from functools import lru_cache, reduce
+from functools import reduce
 
 from typing import Tuple
 
@@ -146,7 +146,6 @@ class Channel:
                 "Given data histogram is not compatible with the Channel."
             )
 
-    @lru_cache()
     def process_indices(self, outer_process_list):
         """Returns a list of indices for the processes in this
         channel matching the `outer_process_list`.
@@ -456,7 +455,6 @@ class Channel:
 
         return fractions_per_template
 
-    @lru_cache()
     def _get_efficiencies_as_array(self):
         """Returns the efficiencies of the processes in this channel
         as `numpy.ndarray`.
@@ -483,7 +481,6 @@ class Channel:
             nui_params
         )
 
-    @lru_cache()
     def _create_block_diag_inv_corr_mat(self):
         inv_corr_mats = [
             template.inv_corr_mat for template in self._template_dict.values()
-- 
2.43.0


From 0fdc4dd39997f7befec09616bdd56aaa1d3f371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 05/54] fix: constraining the yield of a process again replaces
 its constraint

---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 0e4e61b..cdb48b2 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -92,7 +92,8 @@ class MultiChannelTemplate:
     ):
         if process_name not in self._processes:
             raise RuntimeError(f"Process {process_name} not defined.")
-        self._constrained_yields = (*self.constrained_yields, process_name)
+        if process_name not in self._constrained_yields:
+            self._constrained_yields = (*self.constrained_yields, process_name)
         self._constrained_yield_values[process_name] = constr_value
         self._constrained_yield_errors[process_name] = constr_error
 
-- 
2.43.0


From 75ec0fe4f0bbdf000d0191e25d320194a04ea532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 06/54] fix: ScipyMinimizer constrains every fixed parameter,
 once

---
 templatefitter/minimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 484adca..4e1d65f 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -409,7 +409,8 @@ class ScipyMinimizer(AbstractMinimizer):
             in `param_names`.
         """
         param_index = self.params.param_id_to_index(param_id)
-        self._fixed_params.append(param_index)
+        if param_index not in self._fixed_params:
+            self._fixed_params.append(param_index)
 
     def release_params(self):
         """
@@ -439,7 +440,7 @@ class ScipyMinimizer(AbstractMinimizer):
             constraints.append(
                 {
                     "type": "eq",
-                    "fun": lambda x: x[fixed_param] - initial_param_values[fixed_param],
+                    "fun": lambda x, i=fixed_param: x[i] - initial_param_values[i],
                 }
             )
 
-- 
2.43.0


From 5aabdb3fbe5b8a855d72288176d4397cace1a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 07/54] fix: fixed and bounded parameters are respected in
 every fit, scan and significance

---
 templatefitter/fitter.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index dbedc3b..94fd07e 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -79,7 +79,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -211,12 +211,18 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
             ):
                 minimizer.set_param_fixed(i)
+        for fixed_id in self._fixed_parameters:
+            minimizer.set_param_fixed(fixed_id)
+
+        for bound_id, bounds in self._bound_parameters.items():
+            minimizer.set_param_bounds(bound_id, bounds)
+
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
         minimum = result.fcn_min_val
@@ -267,10 +273,9 @@ class TemplateFitter:
 
         minimizer = args[0]
         point = args[1]
-        initial_values = args[2]
+        initial_values = np.array(args[2])
         param_id = args[3]
 
-        minimizer.release_params()
         param_index = minimizer.params.param_id_to_index(param_id)
         initial_values[param_index] = point
         minimizer.set_param_fixed(param_id)
@@ -327,7 +332,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -352,7 +357,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
-- 
2.43.0


From f487d65a251d7096f62060a6c9c3097a46fee5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 08/54] fix: calculating a significance leaves the yields of
 the model unchanged

---
 templatefitter/fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 94fd07e..3faae41 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -351,8 +351,6 @@ class TemplateFitter:
             return 0
 
         # set signal of template specified by param_id to zero and profile the likelihood
-        self._templates.set_yield(process_id, 0)
-
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
         )
@@ -370,8 +368,10 @@ class TemplateFitter:
             minimizer.set_param_bounds(param_id, bounds)
 
         minimizer.set_param_fixed(process_id + "_yield")
+        initial_values = self._nll.x0
+        initial_values[minimizer.params.param_id_to_index(process_id + "_yield")] = 0
         print("Background")
-        profile_result = minimizer.minimize(self._nll.x0, verbose=verbose)
+        profile_result = minimizer.minimize(initial_values, verbose=verbose)
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-- 
2.43.0


From 8b331ca336361553261f38abe511b195893580b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 09/54] fix: significance is zero, not nan, if the likelihoods
 agree within rounding

---
 templatefitter/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 3faae41..63f0257 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -375,4 +375,4 @@ class TemplateFitter:
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-        return np.sqrt(q0)
+        return np.sqrt(max(q0, 0))
-- 
2.43.0


From 356b2282c888f3f942ed91327fa2f84015e2606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 10/54] fix: covariance and uncertainties of fits with fixed
 parameters

---
 templatefitter/minimizer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 4e1d65f..5339046 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -296,9 +296,9 @@ class IMinuitMinimizer(AbstractMinimizer):
 
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
-        self._params.errors = m.np_errors()
-        self._params.covariance = m.np_matrix()
-        self._params.correlation = m.np_matrix(correlation=True)
+        self._params.errors = np.where(self._fixed_params, 0.0, m.np_errors())
+        self._params.covariance = m.np_matrix(skip_fixed=False)
+        self._params.correlation = m.np_matrix(correlation=True, skip_fixed=False)
 
         self._success = (
             fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
@@ -387,7 +387,10 @@ class ScipyMinimizer(AbstractMinimizer):
 
         if get_hesse:
             hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)
-            self._params.covariance = np.linalg.inv(hesse)
+            free = [i for i in range(len(hesse)) if i not in self._fixed_params]
+            covariance = np.zeros_like(hesse)
+            covariance[np.ix_(free, free)] = np.linalg.inv(hesse[np.ix_(free, free)])
+            self._params.covariance = covariance
             self._params.correlation = cov2corr(self._params.covariance)
             self._params.errors = np.sqrt(np.diag(self._params.covariance))
 
-- 
2.43.0


From 250d8b47eb3fde25527eddc6b59ecf0202e633c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 11/54] fix: minimizing again does not alter results returned
 earlier

---
 templatefitter/minimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 5339046..ed3d615 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -295,6 +295,7 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
 
         self._fcn_min_val = m.fval
+        self._params = Parameters(self._params.names)
         self._params.values = m.np_values()
         self._params.errors = np.where(self._fixed_params, 0.0, m.np_errors())
         self._params.covariance = m.np_matrix(skip_fixed=False)
@@ -382,6 +383,7 @@ class ScipyMinimizer(AbstractMinimizer):
                 f"Message: {opt_result.message}"
             )
 
+        self._params = Parameters(self._params.names)
         self._params.values = opt_result.x
         self._fcn_min_val = opt_result.fun
 
-- 
2.43.0


From bb0c709fe16ffd7747ec190360cc7b2151f0bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 12/54] fix: histograms keep their own copy of given contents,
 errors and edges

---
 templatefitter/histograms/hist1d.py |  8 ++++----
 templatefitter/histograms/hist2d.py | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 7acf2d1..5bd7a91 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -35,7 +35,7 @@ class Hist1d(AbstractHist):
             self._range = range
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins, dtype=float)
             self._range = get_bin_range(self._bin_edges)
 
     def fill(self, data, weights):
@@ -90,12 +90,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
         instance._is_empty = False
 
         return instance
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 21e4da6..5caa1ce 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -35,8 +35,8 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = tuple(len(edges) - 1 for edges in bins)
-            self._bin_edges = bins
-            self._range = tuple(map(get_bin_range, bins))
+            self._bin_edges = [np.array(edges, dtype=float) for edges in bins]
+            self._range = tuple(map(get_bin_range, self._bin_edges))
 
     def fill(self, data, weights=None):
         if weights is None:
@@ -75,12 +75,12 @@ class Hist2d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
-        instance._bin_errors_sq = bin_errors ** 2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
         return instance
 
-- 
2.43.0


From 5b95aab6fa8d759b42357784d31711a6bbf98ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 13/54] fix: filling a histogram takes any kind of weights and
 changes nothing if it fails

---
 templatefitter/histograms/hist1d.py | 11 ++++++-----
 templatefitter/histograms/hist2d.py | 18 +++++++++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 5bd7a91..b5e1118 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -38,7 +38,7 @@ class Hist1d(AbstractHist):
             self._bin_edges = np.array(bins, dtype=float)
             self._range = get_bin_range(self._bin_edges)
 
-    def fill(self, data, weights):
+    def fill(self, data, weights=None):
         """Fills the histogram with given data and weights.
 
         Parameters
@@ -51,10 +51,9 @@ class Hist1d(AbstractHist):
         """
         if weights is None:
             weights = np.ones_like(data)
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.array(weights, dtype=float)
 
-        self._bin_counts += binned_statistic(
+        bin_counts = binned_statistic(
             data,
             weights,
             statistic='sum',
@@ -62,7 +61,7 @@ class Hist1d(AbstractHist):
             range=self._range
         )[0]
 
-        self._bin_errors_sq += binned_statistic(
+        bin_errors_sq = binned_statistic(
             data,
             weights ** 2,
             statistic='sum',
@@ -70,6 +69,8 @@ class Hist1d(AbstractHist):
             range=self._range
         )[0]
 
+        self._bin_counts += bin_counts
+        self._bin_errors_sq += bin_errors_sq
         self._is_empty = False
 
     @classmethod
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 5caa1ce..8000949 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -41,20 +41,28 @@ class Hist2d(AbstractHist):
     def fill(self, data, weights=None):
         if weights is None:
             weights = np.ones(len(data[0]))
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.array(weights, dtype=float)
 
-        self._bin_counts += binned_statistic_2d(
-            x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
+        bin_counts = binned_statistic_2d(
+            x=data[0],
+            y=data[1],
+            values=weights,
+            statistic="sum",
+            bins=self._bin_edges,
+            range=self._range,
         )[0]
 
-        self._bin_errors_sq += binned_statistic_2d(
+        bin_errors_sq = binned_statistic_2d(
             x=data[0],
             y=data[1],
             values=weights ** 2,
             statistic="sum",
             bins=self._bin_edges,
+            range=self._range,
         )[0]
+
+        self._bin_counts += bin_counts
+        self._bin_errors_sq += bin_errors_sq
         self._is_empty = False
 
     @classmethod
-- 
2.43.0


From ba495a17d3bfe9ebb7711b550a702e70173011d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 14/54] fix: templates copy the parameters they are given

---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index a7be623..3498377 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -88,7 +88,7 @@ class AbstractTemplate(ABC):
                 "Shape of new parameter array is not compatible to this template."
             )
 
-        self._params = new_values
+        self._params = np.array(new_values, dtype=float)
 
     @property
     def yield_param(self):
-- 
2.43.0


From 0fde082e0a7f4ab40aca19056e6dd0820baed5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 15/54] fix: resetting a template returns to its own initial
 yield

---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 3498377..8901f5a 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -130,7 +130,7 @@ class AbstractTemplate(ABC):
         """Initializes template parameters.
         """
         self._params = np.zeros(self._num_bins + 1)
-        self._params[0] = np.sum(self._hist.bin_counts)
+        self._params[0] = np.sum(self._flat_bin_counts)
 
     def _init_errors(self):
         """The statistical covariance matrix is initialized as diagonal
-- 
2.43.0


From ea3d2a7346cccc74e20eef71a54e2fbd51703317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 16/54] fix: ranges given as lists and tuples are the same
 range

---
 templatefitter/histograms/hist1d.py | 4 ++--
 templatefitter/histograms/hist2d.py | 2 +-
 templatefitter/templates/channel.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index b5e1118..3e60387 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -28,11 +28,11 @@ class Hist1d(AbstractHist):
         if isinstance(bins, int):
             self._num_bins = bins
             self._bin_edges = np.linspace(*range, self._num_bins + 1)
-            self._range = range
+            self._range = tuple(range)
         elif isinstance(bins, tuple):
             self._num_bins = bins[0]
             self._bin_edges = np.linspace(*range, self._num_bins + 1)
-            self._range = range
+            self._range = tuple(range)
         else:
             self._num_bins = len(bins) - 1
             self._bin_edges = np.array(bins, dtype=float)
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 8000949..97d57a4 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -31,7 +31,7 @@ class Hist2d(AbstractHist):
                 np.linspace(*limit, num_bins + 1)
                 for limit, num_bins in zip(range, bins)
             ]
-            self._range = range
+            self._range = tuple(tuple(limit) for limit in range)
 
         else:
             self._num_bins = tuple(len(edges) - 1 for edges in bins)
diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6d8b9c0..f916526 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -493,10 +493,10 @@ class Channel:
 
     def _check_template(self, template):
         bins_cond = self._bins == template.bins
-        range_cond = self._range == template.range
+        range_cond = np.array_equal(self._range, template.range)
         return bins_cond and range_cond
 
     def _check_hist(self, hist):
         bins_cond = self._bins == hist.shape
-        range_cond = self._range == hist.range
+        range_cond = np.array_equal(self._range, hist.range)
         return bins_cond and range_cond
-- 
2.43.0


From 5085b9317f9a8f73be33b811fd1b546f37f423e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 17/54] fix: defining a channel again is refused instead of
 replacing it

---
 templatefitter/templates/multi_channel_template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index cdb48b2..96f152c 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -116,6 +116,8 @@ class MultiChannelTemplate:
         name : str
             Channel name.
         """
+        if name in self._channel_dict:
+            raise RuntimeError(f"Channel {name} already defined.")
         ch = Channel(name=name, bins=bins, range=range)
         self._channel_dict[name] = ch
 
-- 
2.43.0


From 4285a75e05efd2a9b706fc2d58f9f659d26f2128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 18/54] fix: adding data to several channels is refused as a
 whole or not at all

---
 templatefitter/templates/channel.py                | 11 ++++++++---
 templatefitter/templates/multi_channel_template.py |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index f916526..495b0bf 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -139,9 +139,14 @@ class Channel:
             AbstractHist).
         """
 
-        if self._check_hist(hdata):
-            self._hdata = hdata
-        else:
+        self.check_data(hdata)
+        self._hdata = hdata
+
+    def check_data(self, hdata):
+        """Raises a RuntimeError if the given data histogram is not
+        compatible with this channel.
+        """
+        if not self._check_hist(hdata):
             raise RuntimeError(
                 "Given data histogram is not compatible with the Channel."
             )
diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 96f152c..dd94dd7 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -172,7 +172,9 @@ class MultiChannelTemplate:
         for channel, hdata in kwargs.items():
             if channel not in list(self.channels.keys()):
                 raise RuntimeError(f"Channel '{channel}' not defined!")
+            self.channels[channel].check_data(hdata)
 
+        for channel, hdata in kwargs.items():
             self.channels[channel].add_data(hdata)
 
     def process_to_index(self, process):
-- 
2.43.0


From 9c5b013b22502f40487dd7ac04c4332110b26210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 19/54] fix: templates and data with different bin edges are
 not compatible

---
 templatefitter/templates/channel.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 495b0bf..ce9b152 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -499,9 +499,23 @@ class Channel:
     def _check_template(self, template):
         bins_cond = self._bins == template.bins
         range_cond = np.array_equal(self._range, template.range)
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_edges(template.bin_edges)
 
     def _check_hist(self, hist):
         bins_cond = self._bins == hist.shape
         range_cond = np.array_equal(self._range, hist.range)
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_edges(hist.bin_edges, False)
+
+    def _check_edges(self, bin_edges, compare_data=True):
+        """Compares bin edges with those of the templates (and data)
+        in this channel, which all have the same number of bins.
+        """
+        others = [template.bin_edges for template in self.templates.values()]
+        if compare_data and self._hdata is not None:
+            others.append(self._hdata.bin_edges)
+        axes = bin_edges if isinstance(bin_edges, list) else [bin_edges]
+        return all(
+            np.allclose(new, old, rtol=0, atol=1e-9 * abs(new[-1] - new[0]))
+            for other in others
+            for new, old in zip(axes, other if isinstance(other, list) else [other])
+        )
-- 
2.43.0


From fd91e16bab943f65eb8c88ceda331d4eaafbd5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 20/54] fix: post-fit uncertainties of a channel use the
 parameters of that channel

---
 templatefitter/templates/channel.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index ce9b152..ab55db4 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -190,11 +190,28 @@ class Channel:
             yields, nui_params = self.split_parameter_array(param_values)
             return self._expected_evts_per_bin(yields, nui_params)
 
-        jac = nd.Jacobian(exp_bin_counts)(result_params.values)
-        bin_by_bin_cov = jac @ result_params.covariance @ np.transpose(jac)
+        indices = self._param_indices(result_params)
+        jac = nd.Jacobian(exp_bin_counts)(np.asarray(result_params.values)[indices])
+        covariance = np.asarray(result_params.covariance)[np.ix_(indices, indices)]
+        bin_by_bin_cov = jac @ covariance @ np.transpose(jac)
 
         return bin_by_bin_cov
 
+    def _param_indices(self, result_params: Parameters) -> list:
+        """Returns the indices of the yields and nuissance parameters of
+        this channel, in the order of its templates, in the parameters of
+        a fit. Parameters with other names are taken as they are.
+        """
+        names = [f"{process}_yield" for process in self.processes]
+        for process, template in self.templates.items():
+            names.extend(
+                f"{self.name}_{process}_bin_{i}" for i in range(template.num_bins)
+            )
+        all_names = list(result_params.names)
+        if not set(names).issubset(all_names):
+            return list(range(len(all_names)))
+        return [all_names.index(name) for name in names]
+
     def get_post_fit_bin_uncertainty(self, result_params: Parameters) -> np.ndarray:
         """Returns the post fit bin uncertainties from the
         post fit bin by bin covariance matrix.
@@ -317,7 +334,8 @@ class Channel:
             post_fit_errors = np.sqrt(np.diag(post_fit_cov))
         elif post_fit_uncertainties == "scale":
             n_templates = len(self.templates)
-            nui_param_errors = result_params.errors[n_templates:].reshape((n_templates,-1))
+            errors = np.asarray(result_params.errors)[self._param_indices(result_params)]
+            nui_param_errors = errors[n_templates:].reshape((n_templates,-1))
             pre_fit_errors = np.vstack([template.errors for template in self.templates.values()])
             post_fit_errors = np.sqrt(np.sum((nui_param_errors*pre_fit_errors)**2, axis=0))
 
-- 
2.43.0


From 6ff34aa090556340cafccf3c93ca9a8600128148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 21/54] fix: goodness-of-fit with empty bins and p-values for
 many degrees of freedom

---
 templatefitter/stats.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ee2a4ef..ba67832 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.stats import chi2
-from scipy.integrate import quad
+
+from templatefitter.utility import xlogyx
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
@@ -11,7 +12,7 @@ __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
 def default_chi2_test(data, expectation, uncertainty, dof):
     chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -52,7 +53,7 @@ def pearson_chi2_test(data, expectation, dof):
         p-value.
     """
     chi_sq = np.sum((data - expectation) ** 2 / expectation)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -91,6 +92,6 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
-    chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    chi_sq = 2 * np.sum(expectation - data - xlogyx(data, expectation))
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From ec8dbc76e40f9399d6e8059a78a15089fddd59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 22/54] fix: corr2cov takes variances as documented

---
 templatefitter/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index d84bb79..f5d3739 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -47,7 +47,7 @@ def corr2cov(corr, var):
     out : np.ndarray
         Covariance matrix. Shape is (n,n).
     """
-    D = np.diag(var)
+    D = np.diag(np.sqrt(var))
     return np.matmul(D, np.matmul(corr, D))
 
 
-- 
2.43.0


From 0d2165fb05cfb677347f3a2f5e6814c8cbf36704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 23/54] fix: plot 2d templates with current versions of
 matplotlib

---
 templatefitter/templates/template2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index af82086..bb17406 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -72,7 +72,7 @@ class Template2d(AbstractTemplate):
 
         xy = np.array(list(product(xe, ye)))
 
-        viridis = cm.get_cmap("viridis", 256)
+        viridis = plt.get_cmap("viridis", 256)
         cmap = viridis(np.linspace(0, 1, 256))
         cmap[0, :] = np.array([1, 1, 1, 1])
         newcm = ListedColormap(cmap)
-- 
2.43.0


From 0738b7bb3db5d486c8521a7abe2a12dae72e523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 24/54] fix: pulls of a toy study use the yields its toys were
 generated with

---
 templatefitter/toy_study.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templatefitter/toy_study.py b/templatefitter/toy_study.py
index 93c37f2..bf26a2e 100644
--- a/templatefitter/toy_study.py
+++ b/templatefitter/toy_study.py
@@ -28,6 +28,7 @@ class ToyStudy:
         self._templates = templates
         self._mimizer_id = minimizer_id
         self._toy_results = {"parameters": [], "uncertainties": []}
+        self._toy_yields = None
         self._is_fitted = False
 
     def do_experiments(self, n_exp=1000, max_tries=10):
@@ -43,6 +44,7 @@ class ToyStudy:
             occurs.
         """
         self._reset_state()
+        self._toy_yields = self._templates.process_yields
 
         print(f"Performing toy study with {n_exp} experiments...")
         for _ in tqdm.tqdm(range(n_exp), desc="Experiments Progress"):
@@ -107,6 +109,7 @@ class ToyStudy:
             self._templates.reset_parameters()
 
             self._templates.set_yield(process_id, param_point)
+            self._toy_yields = self._templates.process_yields
 
             for _ in tqdm.tqdm(range(n_exp), desc="Experiment Progress"):
                 self._experiment(get_hesse=False)
@@ -182,7 +185,7 @@ class ToyStudy:
         parameters, uncertainties = self.get_toy_results(process_id)
         # this works only for template yield, for nuissance parameters
         # i have change this
-        expected_yield = self._templates.get_yield(process_id)
+        expected_yield = self._toy_yields[self._templates.process_to_index(process_id)]
 
         return (parameters - expected_yield) / uncertainties
 
-- 
2.43.0


From 8b3675331b650ce7ae3ec0bfd881469a4431f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 25/54] fix: toy studies do not replace the data of the
 templates

---
 templatefitter/toy_study.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/templatefitter/toy_study.py b/templatefitter/toy_study.py
index bf26a2e..0f325fa 100644
--- a/templatefitter/toy_study.py
+++ b/templatefitter/toy_study.py
@@ -56,6 +56,8 @@ class ToyStudy:
         """
         Helper function for toy experiments.
         """
+        channels = self._templates.channels.values()
+        data = [channel._hdata for channel in channels]
         for _ in range(max_tries):
             try:
 
@@ -78,6 +80,11 @@ class ToyStudy:
                 logging.debug("RuntimeError occured in toy experiment. Trying again")
                 continue
 
+            finally:
+                # toys replace the data of the templates only during the fit
+                for channel, hdata in zip(channels, data):
+                    channel._hdata = hdata
+
         raise RuntimeError("Experiment exceed max number of retries.")
 
     def do_linearity_test(self, process_id, limits, n_points=10, n_exp=200):
-- 
2.43.0


From d93d4b513c9821ec5df81e6c6330bb4301a504c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 26/54] fix: correlation matrix of legacy templates can be read

---
 templatefitter/templates_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 4165137..dcd45f0 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -375,7 +375,7 @@ class Template(AbstractTemplate):
     def corr_mat(self):
         """numpy.ndarray: The correlation matrix of the template errors.
         Shape is (`num_bins`, `num_bins`)."""
-        return self.corr_mat
+        return self._corr
 
     @property
     def inv_corr_mat(self):
-- 
2.43.0


From 46253b767be3e0350d45cd7426e82e373508df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 27/54] fix: legacy templates can be plotted

---
 templatefitter/templates_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index dcd45f0..c32ef8e 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -266,7 +266,7 @@ class Template(AbstractTemplate):
             x=self.bin_mids,
             height=2 * self.errors(),
             width=self.bin_width,
-            bottom=self.values - self.errors(),
+            bottom=self.values() - self.errors(),
             color="black",
             hatch="///////",
             fill=False,
-- 
2.43.0


From c500cded10152143c45a0b47ba9652fc810c2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 28/54] fix: legacy likelihood is finite for bins without
 observed events

---
 templatefitter/nll.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index a002f0b..c29d2c8 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -10,6 +10,8 @@ import numpy as np
 
 from scipy.linalg import block_diag
 
+from templatefitter.utility import xlogyx
+
 import warnings
 
 __all__ = ["AbstractTemplateCostFunction", "StackedTemplateNegLogLikelihood"]
@@ -157,9 +159,3 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
 
         return poisson_term + gauss_term
 
-def xlogyx(x, y):
-    """Compute :math:`x*log(y/x)`to a good precision when :math:`y~x`.
-    The xlogyx function is taken from https://github.com/scikit-hep/probfit/blob/master/probfit/_libstat.pyx.
-    """
-    result = np.where(x < y, x*np.log1p((y-x)/x), -x*np.log1p((x-y)/y))
-    return np.nan_to_num(result, nan=np.inf)
-- 
2.43.0


From 3cb41d81f7f585d0a430c1f26adf8ba23cb70832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 29/54] fix: legacy template parameters keep their original
 values

---
 templatefitter/templates_legacy.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index c32ef8e..8b4ae3d 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -6,6 +6,7 @@ import logging
 
 from abc import ABC, abstractmethod
 from collections import OrderedDict
+from copy import copy
 from functools import lru_cache
 from typing import Tuple, List
 
@@ -31,14 +32,14 @@ class TemplateParameter:
 
     def __init__(self, value, error, name):
         self.value = value
-        self._original_value = value
+        self._original_value = copy(value)
         self.error = error
-        self._original_error = error
+        self._original_error = copy(error)
         self.name = name
 
     def reset(self):
-        self.value = self._original_value
-        self.error = self._original_error
+        self.value = copy(self._original_value)
+        self.error = copy(self._original_error)
 
 
 class AbstractTemplate(ABC):
-- 
2.43.0


From edd6eb0aa8216983d3c414b9e2ac681359193a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 30/54] fix: legacy histograms take any kind of weights and
 integer contents

---
 templatefitter/histogram_legacy.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index d6e105f..c86d6ef 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -53,11 +53,9 @@ class Histogram:
         """
         if isinstance(data, list):
             data = np.array(data)
-        if weights is not None and isinstance(weights, list):
-            weights = np.array(weights)
-
         if weights is None:
             weights = np.ones_like(data)
+        weights = np.array(weights, dtype=float)
 
         if len(data) != len(weights):
             raise ValueError(
@@ -273,12 +271,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
 
         return instance
 
@@ -295,8 +293,7 @@ class Hist1d(AbstractHist):
         """
         if weights is None:
             weights = np.ones_like(data)
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.array(weights, dtype=float)
 
         self._bin_counts += scipy.stats.binned_statistic(
             data,
@@ -342,8 +339,7 @@ class Hist2d(AbstractHist):
     def fill(self, data, weights=None):
         if weights is None:
             weights = np.ones(len(data[:, 0]))
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.array(weights, dtype=float)
 
         self._bin_counts += scipy.stats.binned_statistic_2d(
             x=data[:, 0],
-- 
2.43.0


From 04757d1b869383179b51975e4320470b88f7a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 31/54] fix: bin mids and widths of legacy 2d histograms

---
 templatefitter/histogram_legacy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index c86d6ef..bfcb396 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -362,6 +362,16 @@ class Hist2d(AbstractHist):
         self.x_projection.cache_clear()
         self.y_projection.cache_clear()
 
+    @property
+    def bin_mids(self):
+        """list of numpy.ndarray: Bin mids of both axes."""
+        return [(edges[1:] + edges[:-1]) / 2 for edges in self.bin_edges]
+
+    @property
+    def bin_width(self):
+        """list of float: Bin width of both axes."""
+        return [edges[1] - edges[0] for edges in self.bin_edges]
+
     @property
     def xlimits(self):
         return self._limits[0]
-- 
2.43.0


From 5f2b3bd4f08fc177b4feff11502909c621d6b86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 32/54] fix: toy data keep the shape of channels with axes of a
 single bin

---
 templatefitter/templates/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index ab55db4..69a4559 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -400,7 +400,7 @@ class Channel:
         template_bin_counts = sum(
             [template.values for template in self.templates.values()]
         )
-        toy_bin_counts = poisson.rvs(template_bin_counts)
+        toy_bin_counts = poisson.rvs(template_bin_counts, size=template_bin_counts.shape)
 
         return self._htype.from_binned_data(
             toy_bin_counts, self.bin_edges, np.sqrt(toy_bin_counts)
-- 
2.43.0


From 46a7b2051a0ac866cdb8e9ecf48291669a574090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 33/54] fix: minuit varies parameters that start at zero with a
 finite step

---
 templatefitter/minimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index ed3d615..ea59ff9 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -279,10 +279,13 @@ class IMinuitMinimizer(AbstractMinimizer):
 
     def minimize(self, initial_params, verbose=1, errordef=0.5, **kwargs):
 
+        # a vanishing step size would keep minuit from varying the parameter
+        step_sizes = np.where(initial_params == 0, 0.1, 0.05 * np.abs(initial_params))
+
         m = Minuit.from_array_func(
             self._fcn,
             initial_params,
-            error=0.05 * initial_params,
+            error=step_sizes,
             errordef=errordef,
             fix=self._fixed_params,
             name=self.params.names,
-- 
2.43.0


From 83d4894a694cc0d46c669f6f6210567833c2d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 34/54] fix: minuit uncertainties from the Hesse matrix at the
 minimum

---
 templatefitter/minimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index ea59ff9..9aa95d6 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -277,7 +277,9 @@ class IMinuitMinimizer(AbstractMinimizer):
         super().__init__(fcn, param_names)
         self._fixed_params = [False for _ in self.params.names]
 
-    def minimize(self, initial_params, verbose=1, errordef=0.5, **kwargs):
+    def minimize(
+        self, initial_params, verbose=1, errordef=0.5, get_hesse=True, **kwargs
+    ):
 
         # a vanishing step size would keep minuit from varying the parameter
         step_sizes = np.where(initial_params == 0, 0.1, 0.05 * np.abs(initial_params))
@@ -297,6 +299,10 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
         fmin, _ = m.migrad(ncall=20000)
 
+        # the covariance estimated by migrad can be far off
+        if get_hesse and fmin["is_valid"] and not all(self._fixed_params):
+            m.hesse()
+
         self._fcn_min_val = m.fval
         self._params = Parameters(self._params.names)
         self._params.values = m.np_values()
-- 
2.43.0


From e0aef3b0991a2570a2c46a16a5f5175c83782096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 35/54] fix: scans and significances do not use failed
 minimizations as minima

---
 templatefitter/fitter.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 63f0257..c191581 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -136,6 +136,24 @@ class TemplateFitter:
 
         self._bound_parameters[param_id] = bounds
 
+    @staticmethod
+    def _check_success(result):
+        """Raises an error if a minimization was not successful. The
+        scipy minimizer does so itself, the iminuit minimizer only
+        reports it in its result.
+
+        Parameters
+        ----------
+        result : MinimizeResult
+            Result of the minimization.
+
+        Raises
+        ------
+        RuntimeError
+        """
+        if not result.succes:
+            raise RuntimeError("Minimization was not successful.")
+
     @staticmethod
     def _get_hesse_approx(param_id, fit_result, profile_points):
         """Calculates a gaussian approximation of the negative log
@@ -225,6 +243,7 @@ class TemplateFitter:
 
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
+        self._check_success(result)
         minimum = result.fcn_min_val
         param_val, param_unc = minimizer.params[param_id]
         profile_points = np.linspace(
@@ -282,6 +301,7 @@ class TemplateFitter:
 
         try:
             loop_result = minimizer.minimize(initial_values, get_hesse=False)
+            TemplateFitter._check_success(loop_result)
         except RuntimeError as e:
             logging.info(e)
             logging.info(
@@ -346,6 +366,7 @@ class TemplateFitter:
         for param_id, bounds in self._bound_parameters.items():
             minimizer.set_param_bounds(param_id, bounds)
         fit_result = minimizer.minimize(self._nll.x0, verbose=verbose)
+        self._check_success(fit_result)
 
         if fit_result.params[f"{process_id}_yield"][0] < 0:
             return 0
@@ -372,6 +393,7 @@ class TemplateFitter:
         initial_values[minimizer.params.param_id_to_index(process_id + "_yield")] = 0
         print("Background")
         profile_result = minimizer.minimize(initial_values, verbose=verbose)
+        self._check_success(profile_result)
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-- 
2.43.0


From e7ff4ddd78b3be7a9ba552a8fecc30922841b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 36/54] fix: toy studies repeat experiments whose minuit fit
 failed

---
 templatefitter/toy_study.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templatefitter/toy_study.py b/templatefitter/toy_study.py
index 0f325fa..a0dd7f6 100644
--- a/templatefitter/toy_study.py
+++ b/templatefitter/toy_study.py
@@ -71,6 +71,9 @@ class ToyStudy:
                                        get_hesse=get_hesse,
                                        fix_nui_params=True)
 
+                if not result.succes:
+                    raise RuntimeError("Minimization was not successful.")
+
                 self._toy_results["parameters"].append(result.params.values)
                 self._toy_results["uncertainties"].append(result.params.errors)
 
-- 
2.43.0


From 1a119397a93423d90278727268f3821b3e90ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 37/54] fix: minimizations without a finite minimum are not
 successful

---
 templatefitter/minimizer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 9aa95d6..1bbf327 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -310,8 +310,12 @@ class IMinuitMinimizer(AbstractMinimizer):
         self._params.covariance = m.np_matrix(skip_fixed=False)
         self._params.correlation = m.np_matrix(correlation=True, skip_fixed=False)
 
-        self._success = (
-            fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
+        # minuit takes an undefined or infinite function value for a minimum
+        self._success = bool(
+            fmin["is_valid"]
+            and fmin["has_valid_parameters"]
+            and fmin["has_covariance"]
+            and np.isfinite(m.fval)
         )
 
         # if not self._success:
@@ -381,11 +385,11 @@ class ScipyMinimizer(AbstractMinimizer):
             options={"disp": verbose},
         )
 
-        self._success = opt_result.success
+        self._success = bool(opt_result.success and np.isfinite(opt_result.fun))
         self._status = opt_result.status
         self._message = opt_result.message
 
-        if not opt_result.success:
+        if not self._success:
             raise RuntimeError(
                 f"Minimization was not successful.\n"
                 f"Status: {opt_result.status}\n"
-- 
2.43.0


From d24782cd7440c77152f3999f9ed35f002a93be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 38/54] fix: parameters refuse covariance and correlation
 matrices of the wrong shape

---
 templatefitter/minimizer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 1bbf327..21c794a 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -163,6 +163,7 @@ class Parameters:
 
     @covariance.setter
     def covariance(self, new_covariance):
+        self._check_matrix(new_covariance)
         self._covariance = new_covariance
 
     @property
@@ -173,8 +174,15 @@ class Parameters:
 
     @correlation.setter
     def correlation(self, new_correlation):
+        self._check_matrix(new_correlation)
         self._correlation = new_correlation
 
+    def _check_matrix(self, matrix):
+        if not np.shape(matrix) == (self.num_params, self.num_params):
+            raise ValueError(
+                "Number of rows and columns must be equal to number of parameters"
+            )
+
 
 MinimizeResult = namedtuple("MinimizeResult", ["fcn_min_val", "params", "succes"])
 
-- 
2.43.0


From 51801acfc52e4a2c44f480f4ad307be54842fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 39/54] fix: stacked plots of templates without a color

---
 templatefitter/templates/channel.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 69a4559..9986f4f 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -238,7 +238,10 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = [
+            template.color if template.color is not None else f"C{i % 10}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
@@ -308,7 +311,10 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = [
+            template.color if template.color is not None else f"C{i % 10}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
-- 
2.43.0


From 3eef5ac2c15787fa79a9c460e2cdb1b01323c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 40/54] fix: bin fractions of an empty legacy template are
 zero, not nan

---
 templatefitter/templates_legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 8b4ae3d..e60916b 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -252,6 +252,8 @@ class Template(AbstractTemplate):
         """
         per_bin_yields = self._hist.bin_counts * (
             1 + nui_params * self._relative_errors)
+        if np.sum(per_bin_yields) == 0:
+            return np.zeros_like(per_bin_yields)
         return per_bin_yields / np.sum(per_bin_yields)
 
     def plot_on(self, ax, **kwargs):
-- 
2.43.0


From 2ef32320709dafaebfdff0c9ea827c2c546c814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 41/54] fix: toy data of legacy templates with a single bin are
 arrays

---
 templatefitter/templates_legacy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index e60916b..f9f6b49 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -309,7 +309,8 @@ class Template(AbstractTemplate):
         -------
         toy_dataset : Hist1d
         """
-        toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        toy_bin_counts = scipy.stats.poisson.rvs(
+            self.values(), size=self.num_bins)
         return Hist1d.from_binned_data(self._hist.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
@@ -592,7 +593,8 @@ class StackedTemplate(AbstractTemplate):
         -------
         toy_dataset : Hist1d
         """
-        toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        toy_bin_counts = scipy.stats.poisson.rvs(
+            self.values(), size=self.num_bins)
         return Hist1d.from_binned_data(self.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
-- 
2.43.0


From eff341412311d27de59ca9bf9214b3ccfc278b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 42/54] fix: legacy templates copy the nuisance parameters they
 are given

---
 templatefitter/templates_legacy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index f9f6b49..261f463 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -357,7 +357,7 @@ class Template(AbstractTemplate):
 
     @nui_param_values.setter
     def nui_param_values(self, new_values):
-        self._param_nui.value = new_values
+        self._param_nui.value = np.array(new_values, dtype=float)
 
     @property
     def nui_params_errors(self):
@@ -367,7 +367,7 @@ class Template(AbstractTemplate):
 
     @nui_params_errors.setter
     def nui_params_errors(self, new_errors):
-        self._param_nui.error = new_errors
+        self._param_nui.error = np.array(new_errors, dtype=float)
 
     @property
     def cov_mat(self):
-- 
2.43.0


From c9f23fe52b25d6b94acb300c7fe97fd056b8ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 43/54] fix: legacy histograms take any sequence of bin edges

---
 templatefitter/histogram_legacy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index bfcb396..e4d482d 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -244,7 +244,7 @@ class Hist1d(AbstractHist):
             self._limits = limits
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins)
             self._limits = (np.amin(self._bin_edges), np.amax(self._bin_edges))
 
         self._bin_counts = np.zeros(self._num_bins)
@@ -327,7 +327,7 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = [len(edges) - 1 for edges in bins]
-            self._bin_edges = bins
+            self._bin_edges = [np.array(edges) for edges in bins]
             self._limits = [np.array([np.amin(edges), np.amax(edges)]) for edges in bins]
 
         self._bin_counts = np.zeros(self._num_bins)
-- 
2.43.0


From f8acdb8ec60f9e1190da9cdbde82e4f98419880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 44/54] fix: legacy histograms copy the contents they are given

---
 templatefitter/histogram_legacy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index e4d482d..b4e19b3 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -113,7 +113,7 @@ class Histogram:
 
     @bin_counts.setter
     def bin_counts(self, new_values):
-        self._bin_counts = new_values
+        self._bin_counts = np.array(new_values, dtype=float)
 
     @property
     def bin_entries(self):
@@ -127,7 +127,7 @@ class Histogram:
 
     @bin_errors.setter
     def bin_errors(self, new_errors):
-        self._bin_errors_sq = new_errors ** 2
+        self._bin_errors_sq = np.array(new_errors, dtype=float) ** 2
 
     @property
     def bin_rel_errors(self):
-- 
2.43.0


From 48e4857f3262eca1cce337d62307347fc7903b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 45/54] fix: minuit varies parameters that start near zero with
 a finite step

---
 templatefitter/minimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 21c794a..852fe1c 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -289,8 +289,8 @@ class IMinuitMinimizer(AbstractMinimizer):
         self, initial_params, verbose=1, errordef=0.5, get_hesse=True, **kwargs
     ):
 
-        # a vanishing step size would keep minuit from varying the parameter
-        step_sizes = np.where(initial_params == 0, 0.1, 0.05 * np.abs(initial_params))
+        # a vanishing or tiny step size would keep minuit from varying the parameter
+        step_sizes = np.maximum(0.1, 0.05 * np.abs(initial_params))
 
         m = Minuit.from_array_func(
             self._fcn,
-- 
2.43.0


From 42426e8c5ec6d5e69466840d3ed57198c473dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 46/54] fix: bounds set again for a parameter override those
 set in between under its other identifier

---
 templatefitter/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index c191581..631d02e 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -134,6 +134,8 @@ class TemplateFitter:
             Lower and upper boundaries for this parameter.
         """
 
+        # bounds are applied in the order they were given, name or index
+        self._bound_parameters.pop(param_id, None)
         self._bound_parameters[param_id] = bounds
 
     @staticmethod
-- 
2.43.0


From 5e175661f26e4486110e3217a975bc35a459e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:12 +0000
Subject: [PATCH 47/54] fix: template yields can be set to any kind of real
 number

---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 8901f5a..6291d0b 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -101,7 +101,7 @@ class AbstractTemplate(ABC):
         if isinstance(new_value, np.ndarray):
             if len(new_value) > 1:
                 raise RuntimeError("Yield parameter has to be of type float.")
-        elif not (isinstance(new_value, float) or isinstance(new_value, int)):
+        elif not isinstance(new_value, (float, int, np.integer, np.floating)):
             raise RuntimeError("Yield parameter has to be of type float.")
 
         self._params[0] = new_value
-- 
2.43.0


From 55cf7d918ca5a6e72117dc2f17c60c78c1f7ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:12 +0000
Subject: [PATCH 48/54] fix: parameter vectors of the wrong length are refused
 without effect

---
 templatefitter/templates/multi_channel_template.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index dd94dd7..9f68941 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -242,6 +242,11 @@ class MultiChannelTemplate:
         -------
 
         """
+        if len(x) != self.num_processes + self.num_nui_params:
+            raise ValueError(
+                "Number of values must be equal to the number of yields and "
+                "nuisance parameters."
+            )
         yields = x[: self.num_processes]
         nui_params = x[self.num_processes : self.num_nui_params + self.num_processes]
 
-- 
2.43.0


From ca8a7ea9aa45851d2c8e23f372e93a85bb5868bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:12 +0000
Subject: [PATCH 49/54] fix: bin contents and errors that do not match the
 edges are refused

---
 templatefitter/histograms/hist1d.py | 6 ++++++
 templatefitter/histograms/hist2d.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 3e60387..c0b4287 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -97,6 +97,12 @@ class Hist1d(AbstractHist):
             bin_errors = np.sqrt(instance._bin_counts)
 
         instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
+        if not (
+            instance._bin_counts.shape
+            == instance._bin_errors_sq.shape
+            == tuple(instance.shape)
+        ):
+            raise ValueError("Bin counts or errors do not match the bin edges.")
         instance._is_empty = False
 
         return instance
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 97d57a4..24d5b94 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -89,6 +89,12 @@ class Hist2d(AbstractHist):
             bin_errors = np.sqrt(instance._bin_counts)
 
         instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
+        if not (
+            instance._bin_counts.shape
+            == instance._bin_errors_sq.shape
+            == tuple(instance.shape)
+        ):
+            raise ValueError("Bin counts or errors do not match the bin edges.")
         instance._is_empty = False
         return instance
 
-- 
2.43.0


From b3c4388e7f2dd08d3abf38b9acc09a11437224d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:08 +0000
Subject: [PATCH 50/54] fix: statistics and covariances of unsigned integer
 counts

---
 templatefitter/stats.py   | 7 +++++++
 templatefitter/utility.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ba67832..3149ac9 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -10,7 +10,12 @@ __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 #
 
 
+def _as_floats(*arrays):
+    return [np.asarray(array, dtype=float) for array in arrays]
+
+
 def default_chi2_test(data, expectation, uncertainty, dof):
+    data, expectation, uncertainty = _as_floats(data, expectation, uncertainty)
     chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)
     pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
@@ -52,6 +57,7 @@ def pearson_chi2_test(data, expectation, dof):
     float
         p-value.
     """
+    data, expectation = _as_floats(data, expectation)
     chi_sq = np.sum((data - expectation) ** 2 / expectation)
     pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
@@ -92,6 +98,7 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
+    data, expectation = _as_floats(data, expectation)
     chi_sq = 2 * np.sum(expectation - data - xlogyx(data, expectation))
     pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index f5d3739..5ce794f 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -119,6 +119,7 @@ def get_systematic_cov_mat(hnom, hup, hdown):
     Covariance Matrix : numpy.ndarray
         Shape is (`num_bins`, `num_bins`).
     """
+    hnom, hup, hdown = (np.asarray(h, dtype=float) for h in (hnom, hup, hdown))
     sign = np.ones_like(hup)
     mask = hup < hdown
     sign[mask] = -1
-- 
2.43.0


From f1046038413c9a772e619444f59356a2fba5ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:03 +0000
Subject: [PATCH 51/54] fix: post-fit uncertainties of channels with a single
 bin

numdifftools cannot differentiate arrays of length one with respect to
several parameters.
---
 templatefitter/templates/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 9986f4f..ba789c8 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -188,7 +188,8 @@ class Channel:
         # create helper function to calculate bin counts purely via paramters
         def exp_bin_counts(param_values):
             yields, nui_params = self.split_parameter_array(param_values)
-            return self._expected_evts_per_bin(yields, nui_params)
+            # a single bin has to be returned as a scalar
+            return np.squeeze(self._expected_evts_per_bin(yields, nui_params))
 
         indices = self._param_indices(result_params)
         jac = nd.Jacobian(exp_bin_counts)(np.asarray(result_params.values)[indices])
-- 
2.43.0


From 7ea87171fb9384423bcdf77da3797af23c9dd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:51 +0000
Subject: [PATCH 52/54] fix: scipy minimizations of large yields stopped before
 the minimum

---
 templatefitter/minimizer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 852fe1c..7950669 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -381,14 +381,21 @@ class ScipyMinimizer(AbstractMinimizer):
         -------
         MinimizeResult
         """
-        constraints = self._create_constraints(initial_param_values)
+        # SLSQP needs parameters of comparable size: yields are expected to
+        # change by the order of their square root. Powers of two are exact.
+        x0 = np.asarray(initial_param_values, dtype=float)
+        scale = np.exp2(np.round(0.5 * np.log2(np.maximum(1.0, np.abs(x0)))))
+        constraints = self._create_constraints(x0 / scale)
 
         opt_result = minimize(
-            fun=self._fcn,
-            x0=initial_param_values,
+            fun=lambda x, *args: self._fcn(x * scale, *args),
+            x0=x0 / scale,
             args=additional_args,
             method="SLSQP",
-            bounds=self._param_bounds,
+            bounds=[
+                tuple(None if limit is None else limit / s for limit in bounds)
+                for bounds, s in zip(self._param_bounds, scale)
+            ],
             constraints=constraints,
             options={"disp": verbose},
         )
@@ -405,7 +412,7 @@ class ScipyMinimizer(AbstractMinimizer):
             )
 
         self._params = Parameters(self._params.names)
-        self._params.values = opt_result.x
+        self._params.values = opt_result.x * scale
         self._fcn_min_val = opt_result.fun
 
         if get_hesse:
-- 
2.43.0


From dead1dde29f1552689be4af3630384dbeb6adf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:37 +0000
Subject: [PATCH 53/54] fix: projections of legacy 2d histograms do not share a
 cached array

---
 templatefitter/histogram_legacy.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index b4e19b3..696af51 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -1,7 +1,6 @@
 """Histogram module.
 """
 from abc import ABC, abstractmethod
-from functools import lru_cache
 
 import numpy as np
 import scipy.stats
@@ -359,9 +358,6 @@ class Hist2d(AbstractHist):
             range=np.array(self._limits)
         )[0]
 
-        self.x_projection.cache_clear()
-        self.y_projection.cache_clear()
-
     @property
     def bin_mids(self):
         """list of numpy.ndarray: Bin mids of both axes."""
@@ -388,10 +384,8 @@ class Hist2d(AbstractHist):
     def y_edges(self):
         return self._bin_edges[1]
 
-    @lru_cache()
     def x_projection(self):
         return np.sum(self.bin_counts, axis=1), np.sqrt(np.sum(self._bin_errors_sq, axis=1))
 
-    @lru_cache()
     def y_projection(self):
         return np.sum(self.bin_counts, axis=0), np.sqrt(np.sum(self._bin_errors_sq, axis=0))
-- 
2.43.0


From 7d0deae69e82c9be115b6b5b808df130fcf5052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:37 +0000
Subject: [PATCH 54/54] fix: legacy likelihood uses the current correlations of
 its templates

---
 templatefitter/nll.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index c29d2c8..731c0ca 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -112,8 +112,6 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
 
     def __init__(self, binned_dataset, templates):
         super().__init__(binned_dataset, templates)
-        self._block_diag_inv_corr_mats = block_diag(
-            *self._templates.inv_corr_mats)
 
     @property
     def x0(self):
@@ -154,8 +152,11 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
         poisson_term = np.sum(exp_evts_per_bin - self._d -
                               xlogyx(self._d, exp_evts_per_bin))
 
+        # covariance matrices can be added after the likelihood was created
+        block_diag_inv_corr_mats = block_diag(
+            *self._templates.inv_corr_mats)
         gauss_term = 0.5 * (
-            nuiss_params @ self._block_diag_inv_corr_mats @ nuiss_params)
+            nuiss_params @ block_diag_inv_corr_mats @ nuiss_params)
 
         return poisson_term + gauss_term
 
-- 
2.43.0

