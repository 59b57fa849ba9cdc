From 5bb9049ade6e975c67f4f585b3d264aae3076ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:56 +0000
Subject: [PATCH 01/14] fix: pass the checkpoint directory to joblib.Memory by
 position

The keyword was renamed from cachedir to location in joblib 0.12 and cachedir
was then removed, so every train/predict (with or without a checkpoint
directory) failed with a TypeError.
---
 mlpaper/classification.py | 2 +-
 mlpaper/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 0b2157c..d996060 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -712,7 +712,7 @@ def get_pred_log_prob(
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_log_prob < 0.0  # Ensure is a log-prob
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 7b0cc5f..9de5f4e 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -255,7 +255,7 @@ def get_gauss_pred(X_train, y_train, X_test, methods, min_std=0.0, verbose=False
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_std >= 0.0
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
-- 
2.43.0


From 8e181dd92ec1f24b146c5b515006f786b205e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:56 +0000
Subject: [PATCH 02/14] fix: use float in t_test, np.float was removed from
 numpy

A zero variance sample (e.g. a method that ties with the reference on every
point) made t_test raise an AttributeError.
---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 6247e1f..ce15bd2 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -88,7 +88,7 @@ def t_test(x):
         assert np.var(x, ddof=1) <= 1e-100
         # It is debatable if the condition should be ``np.mean(x) == 0.0`` or
         # ``np.all(x == 0.0)``. Should not matter in practice.
-        pval = np.float(np.mean(x) == 0.0)
+        pval = float(np.mean(x) == 0.0)
     assert 0.0 <= pval and pval <= 1.0
     return pval
 
-- 
2.43.0


From 0f2b8ad6dfc595753df3382023b6e404f55639b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:56 +0000
Subject: [PATCH 03/14] fix: do not swallow interrupts raised in
 predict_log_proba

The bare except turned a KeyboardInterrupt or SystemExit into a fall back to
predict_proba, so the benchmark kept going.
---
 mlpaper/classification.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index d996060..84dc6cc 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -719,8 +719,7 @@ def get_pred_log_prob(
         method_obj.fit(X_train, y_train)
         try:
             pred_log_prob = method_obj.predict_log_proba(X_test)
-        except:  # noqa: E722 If there is no log proba available
-            # TODO add exception type
+        except Exception:  # If there is no log proba available
             with np.errstate(divide="ignore"):  # Not unusual to have some p=0 cases
                 pred_log_prob = np.log(method_obj.predict_proba(X_test))
         return pred_log_prob
-- 
2.43.0


From 69c0edccde51d389020d48c4b7a88edc01a6e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:56 +0000
Subject: [PATCH 04/14] fix: build_lag_df on Python 3, where range() + list is
 a TypeError

---
 mlpaper/data_splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 2785a2c..063c068 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -61,7 +61,7 @@ def build_lag_df(df, n_lags, stride=1, features=None):
 
     df = pd.concat(D, axis=1, names=["lag"])
     # Re-order the levels so there are the same as before but lag at end
-    df = df.reorder_levels(range(1, len(df.columns.names)) + [0], axis=1)
+    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)
     return df
 
 
-- 
2.43.0


From ea38eae6ac2c9f6b455477c8b71fa5cbeedd82c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:52 +0000
Subject: [PATCH 05/14] fix: ordered split when frac times the number of cases
 is an integer

The pivot was one case too far, e.g. for 0.8 of 10 cases, and the sanity check
after it then failed with an AssertionError.
---
 mlpaper/data_splitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 063c068..4cfdc1b 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -213,7 +213,8 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     else:
         all_cases = np.unique(S.values)
 
-    idx = min(int(frac * len(all_cases)), len(all_cases) - 1)
+    # Smallest set of lowest cases (but at least one) that covers frac
+    idx = np.searchsorted(np.arange(1, len(all_cases) + 1) / len(all_cases), frac)
     assert 0 <= idx  # Should never happen due to frac check earlier
     pivotal_case = all_cases[idx]
     # Check we rounded to err just on side of putting more data in train
-- 
2.43.0


From 3c76c2c9f2c7d62c82fc9f5aea541a81aebf7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:52 +0000
Subject: [PATCH 06/14] fix: escape the backslash of \times in LaTeX headers

The header of a shifted unitless metric contained a tab and 'imes'.
---
 mlpaper/sciprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 3df8349..bd46d9d 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -830,7 +830,7 @@ def adjust_headers(headers, shifts, unit_dict, use_prefix=True, use_tex=False):
     dictionaries in Python do not guarantee order.
     """
     prefix_dict = _PREFIX_TEX if use_tex else _PREFIX
-    fmt_shift = "%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
+    fmt_shift = "%s $\\times 10^{%d}$" if use_tex else "%s x 1e%d"
     fmt_unit = "%s (%s)"
     fmt_shift_unit = fmt_shift + " (%s)"
 
-- 
2.43.0


From 51ea653e97f19de8be725ee861c01c3d5ce1dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:52 +0000
Subject: [PATCH 07/14] fix: keep the error bar in clip_EB when mu is NaN

np.clip propagates a NaN limit since numpy 1.17, which lost the error bar.
---
 mlpaper/mlpaper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ce15bd2..bfd9fd9 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -59,7 +59,8 @@ def clip_EB(mu, EB, lower=-np.inf, upper=np.inf, min_EB=0.0):
     with np.errstate(invalid="ignore"):  # expect non-finite here
         EB_trivial = np.fmax(upper - mu, mu - lower)
     assert not (min_EB > EB_trivial)  # Let NaNs pass
-    EB = np.clip(EB, min_EB, EB_trivial)
+    # A NaN limit (from a NaN mu) can't clip anything
+    EB = np.clip(EB, min_EB, np.inf if np.isnan(EB_trivial) else EB_trivial)
     return EB
 
 
-- 
2.43.0


From 800a972471dfbe98b687fd15f5ec99e59d555131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:32 +0000
Subject: [PATCH 08/14] fix: paired error bar of curve areas that are both -inf

auc_boot - ref_boot is NaN when both areas are -inf (a PRG curve whose top
ranked case is a negative), and error_bar asserts on NaN, so a pairwise
summary failed depending on the bootstrap draw.
---
 mlpaper/classification.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 84dc6cc..b8cfb26 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -403,9 +403,14 @@ def curve_boot(
         ref, = area(*check_curve(curve_f(y, ref[:, pos_label])))
     assert np.ndim(ref) == 0
 
+    # PRG area can be -inf for both, which is no difference rather than NaN
+    with np.errstate(invalid="ignore"):
+        delta_boot = np.where(auc_boot == ref_boot, 0.0, auc_boot - ref_boot)
+        delta = 0.0 if auc == ref else auc - ref
+
     # Pack up standard numeric summary triple
     EB = (
-        bu.error_bar(auc_boot - ref_boot, auc - ref, confidence=confidence)
+        bu.error_bar(delta_boot, delta, confidence=confidence)
         if pairwise_CI
         else bu.error_bar(auc_boot, auc, confidence=confidence)
     )
-- 
2.43.0


From b50df9b271e56f075769d54b9ce4684000d4b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:18 +0000
Subject: [PATCH 09/14] fix: mean loss that round-off puts just outside its
 limits

---
 mlpaper/mlpaper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index bfd9fd9..7f9624b 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -530,8 +530,8 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
                 if not self_comparison:  # Otherwise leave both as nan
                     _, EB, pval = get_mean_EB_test(deltas, confidence, lower=-range_, upper=range_, method=method_EB)
             else:
-                mu_, EB = get_mean_and_EB(loss, confidence=confidence, lower=lower, upper=upper, method=method_EB)
-                assert mu_ == mu
+                # Round-off may put np.mean(loss) just outside the limits, here mu is clipped back into them
+                mu, EB = get_mean_and_EB(loss, confidence=confidence, lower=lower, upper=upper, method=method_EB)
                 if not self_comparison:  # Otherwise pval as nan
                     pval = get_test(deltas, lower=-range_, upper=range_, method=method_EB)
 
-- 
2.43.0


From 840a004e987577ae3bf4d6d656b2e00c11d1bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:18 +0000
Subject: [PATCH 10/14] fix: JustNoise classifier on bool labels

---
 mlpaper/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index b8cfb26..35db690 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -647,7 +647,7 @@ class JustNoise:
         n_labels = len(self.pred)
         n_points, = np.shape(y_train)
 
-        counts = self.pseudo_count + np.sum(one_hot(y_train, n_labels), axis=0)
+        counts = self.pseudo_count + np.sum(one_hot(y_train.astype(int), n_labels), axis=0)
         n_total = n_points + n_labels * self.pseudo_count
         self.pred = np.log(counts / n_total)
         assert self.pred.shape == (n_labels,)
-- 
2.43.0


From 1e50e300691c3c2a01f9ecb94d462a8b09550e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 11/14] fix: decimalize a table whose stat columns are in
 another order

---
 mlpaper/sciprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index bd46d9d..e4bc813 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -369,7 +369,9 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
-            perf_tbl_dec.loc[method, metric] = (mu, EB, pval)
+            # Don't assume the stats are in standard order in perf_tbl
+            for stat, val in zip(STD_STATS, (mu, EB, pval)):
+                perf_tbl_dec.loc[method, (metric, stat)] = val
     return perf_tbl_dec
 
 
-- 
2.43.0


From d85547952948ec47ad8f30de8e9e6d4d9e716488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:53 +0000
Subject: [PATCH 12/14] fix: paired differences of losses of unsigned or bool
 type

---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 7f9624b..e86216d 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -521,7 +521,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
 
             mu = np.mean(loss)  # This is the same in all cases
 
-            deltas = loss - loss_ref
+            deltas = loss.astype(float) - loss_ref  # In float, unsigned types would wrap around
             range_ = upper - lower
             self_comparison = method == ref_method
 
-- 
2.43.0


From 5d83ff8d3f288185c7e83288486e026b6bce5e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:07 +0000
Subject: [PATCH 13/14] fix: accept tables that are a column selection of a
 wider one

A selection such as summary[["NLL"]] keeps the unused entries in its column
levels, so loss_table, loss_summary_table, curve_summary_table, decimalize and
format_table looked up columns that are not there and raised KeyError.
---
 mlpaper/classification.py | 4 ++--
 mlpaper/mlpaper.py        | 2 +-
 mlpaper/regression.py     | 2 +-
 mlpaper/sciprint.py       | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 35db690..3ebe3b3 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -246,7 +246,7 @@ def loss_table(log_pred_prob_table, y, metrics_dict, assume_normalized=False):
         method foo's prediction of ``y[5]`` according to loss function bar is
         stored in ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     n_samples, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (n_samples,)
     assert n_samples >= 1 and n_labels >= 1 and len(methods) >= 1
@@ -485,7 +485,7 @@ def curve_summary_table(
         `x_grid`, the curve value, the lower end of confidence envelope,
         and the upper end of the confidence envelope.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     N, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (N,)
     assert ref_method in methods  # ==> len(methods) >= 1
diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index e86216d..5b8c5d1 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -498,7 +498,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
         reference method `ref_method`.
     """
     assert loss_table.columns.names == (METRIC, METHOD)
-    metrics, methods = loss_table.columns.levels
+    metrics, methods = loss_table.columns.remove_unused_levels().levels
     assert ref_method in methods  # ==> len(methods) >= 1
     assert len(loss_table) >= 1 and len(metrics) >= 1
     # Could also test these are cartesian product if we wanted to be exhaustive
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 9de5f4e..bea19b5 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -156,7 +156,7 @@ def loss_table(pred_tbl, y, metrics_dict):
         prediction of ``y[5]`` according to loss function bar is stored in
         ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, moments = pred_tbl.columns.levels
+    methods, moments = pred_tbl.columns.remove_unused_levels().levels
     assert "mu" in moments and "std" in moments
     n_samples = len(pred_tbl)
     assert y.shape == (n_samples,)
diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index e4bc813..ce1999c 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -336,7 +336,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
     """
     assert pval_digits >= 1
     assert perf_tbl.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl.columns.levels
+    metrics, stats = perf_tbl.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl.index.name == METHOD
@@ -743,7 +743,7 @@ def format_table(perf_tbl_dec, shift_mod=None, pad=True, crap_limit_max={}, crap
     """
     # For now, require perf_tbl to be all finite, might relax later.
     assert perf_tbl_dec.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl_dec.columns.levels
+    metrics, stats = perf_tbl_dec.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl_dec.index.name == METHOD
-- 
2.43.0


From c23d8b093bc1ea2b2c90364b48a750e8c08b3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:43 +0000
Subject: [PATCH 14/14] fix: ordered split by an ordered categorical column

Cases were sorted by the text of their labels, but compared by the order of the
categories, so the train side had the wrong size.
---
 mlpaper/data_splitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 4cfdc1b..759fc8f 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -205,6 +205,9 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     assert not S.isnull().any()  # Ordering/comparing NaNs ambiguous
     assert 0.0 <= frac and frac <= 1.0
 
+    if hasattr(S, "cat") and S.cat.ordered:
+        S = S.cat.codes  # Otherwise cases are sorted by label, but compared by order of category
+
     # Get all cases in sorted order
     if assume_sorted and assume_unique:
         all_cases = S.values
-- 
2.43.0

