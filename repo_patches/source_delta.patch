From 7511438e4ce87c30b31a3155a38eb2af7a292947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:37 +0000
Subject: [PATCH 01/98] fix: totals and counts of all-missing columns are
 missing instead of TypeError

The *_total and ctc count functions document None for missing data but
raised TypeError when a whole column was missing.
---
 metcalcpy/util/ctc_statistics.py | 8 ++++++++
 metcalcpy/util/utils.py          | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 007cec4..89aa605 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -708,6 +708,8 @@ def calculate_ctc_oy(input_data, columns_names):
     """
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fy_oy is None or fn_oy is None:
+        return None
     return round_half_up(fy_oy + fn_oy, PRECISION)
 
 
@@ -727,6 +729,8 @@ def calculate_ctc_on(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
+    if fy_on is None or fn_on is None:
+        return None
     return round_half_up(fy_on + fn_on, PRECISION)
 
 
@@ -746,6 +750,8 @@ def calculate_ctc_fy(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
+    if fy_on is None or fy_oy is None:
+        return None
     return round_half_up(fy_on + fy_oy, PRECISION)
 
 
@@ -765,6 +771,8 @@ def calculate_ctc_fn(input_data, columns_names):
     """
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fn_on is None or fn_oy is None:
+        return None
     return round_half_up(fn_on + fn_oy, PRECISION)
 
 
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c8b9961..7c345d6 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -252,9 +252,11 @@ def round_half_up(num, decimals=0):
             n:  number
             decimals: decimal place
         Returns:
-            rounded number
+            rounded number or None if the number is missing
 
     """
+    if num is None:
+        return None
     multiplier = 10 ** decimals
     return math.floor(num * multiplier + 0.5) / multiplier
 
-- 
2.43.0


From 6bb7ab107f5cf158e7c41858e11ba73bd93e1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:46 +0000
Subject: [PATCH 02/98] fix: statistics no longer leave warnings escalated to
 errors

An early return for undefined scores skipped the reset of the warnings
filter, so any later warning in the process became an exception.
---
 metcalcpy/util/ctc_statistics.py    | 18 ++++++++++++------
 metcalcpy/util/eclv_statistics.py   |  3 +--
 metcalcpy/util/sal1l2_statistics.py |  6 ++++--
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 89aa605..7a19a0f 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -101,7 +101,8 @@ def calculate_fbias(input_data, columns_names):
         result = round_half_up(result, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
-    warnings.filterwarnings('ignore')
+    finally:
+        warnings.filterwarnings('ignore')
     return result
 
 
@@ -129,7 +130,8 @@ def calculate_fmean(input_data, columns_names):
         result = round_half_up(result, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
-    warnings.filterwarnings('ignore')
+    finally:
+        warnings.filterwarnings('ignore')
     return result
 
 
@@ -336,7 +338,8 @@ def calculate_gss(input_data, columns_names):
         gss = round_half_up(gss, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         gss = None
-    warnings.filterwarnings('ignore')
+    finally:
+        warnings.filterwarnings('ignore')
     return gss
 
 
@@ -395,7 +398,8 @@ def calculate_hss(input_data, columns_names):
         hss = round_half_up(hss, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         hss = None
-    warnings.filterwarnings('ignore')
+    finally:
+        warnings.filterwarnings('ignore')
     return hss
 
 
@@ -454,7 +458,8 @@ def calculate_lodds(input_data, columns_names):
         v = round_half_up(v, PRECISION)
     except (TypeError, Warning):
         v = None
-    warnings.filterwarnings('ignore')
+    finally:
+        warnings.filterwarnings('ignore')
     return v
 
 
@@ -489,7 +494,8 @@ def calculate_bagss(input_data, columns_names):
         result = round_half_up(result, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
-    warnings.filterwarnings('ignore')
+    finally:
+        warnings.filterwarnings('ignore')
     return result
 
 
diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index bd113e7..f1ff056 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -50,8 +50,6 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
                 s    - Base rate
             or None if some of the data values are missing or invalid
     """
-    warnings.filterwarnings('error')
-
     # some validation
     if line_type != 'ctc' and line_type != 'pct':
         print(f'ERROR: incorrect line type {line_type} for calculating ECLV  ')
@@ -60,6 +58,7 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
         print(f'ERROR: provide thresh for calculating ECLV  ')
         return None
 
+    warnings.filterwarnings('error')
     try:
         if line_type == 'pct':
             index_thresh_i = np.where(columns_names == 'thresh_i')[0]
diff --git a/metcalcpy/util/sal1l2_statistics.py b/metcalcpy/util/sal1l2_statistics.py
index 6a7913d..0cda76f 100644
--- a/metcalcpy/util/sal1l2_statistics.py
+++ b/metcalcpy/util/sal1l2_statistics.py
@@ -53,7 +53,8 @@ def calculate_anom_corr(input_data, columns_names, aggregation=False):
             anom_corr = round_half_up(anom_corr, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         anom_corr = None
-    warnings.filterwarnings('ignore')
+    finally:
+        warnings.filterwarnings('ignore')
     return anom_corr
 
 
@@ -90,7 +91,8 @@ def calculate_anom_corr_raw(input_data, columns_names, aggregation=False):
         anom_corr_raw = round_half_up(anom_corr_raw, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         anom_corr_raw = None
-    warnings.filterwarnings('ignore')
+    finally:
+        warnings.filterwarnings('ignore')
     return anom_corr_raw
 
 
-- 
2.43.0


From fdded9ea3e8216e6c1a9870daf566659303a8a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:46 +0000
Subject: [PATCH 03/98] fix: economic value of probabilistic data used the
 removed np.float alias

---
 metcalcpy/util/eclv_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index f1ff056..a0fdd32 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -67,10 +67,10 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
             thresh_i_more = input_data[:, index_thresh_i] > thresh
             thresh_i_less = input_data[:, index_thresh_i] <= thresh
 
-            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(np.float))
-            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(np.float))
-            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(np.float))
-            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(np.float))
+            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(float))
+            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(float))
+            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(float))
+            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(float))
         else:
             n11 = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
             n10 = sum_column_data_by_name(input_data, columns_names, 'fy_on')
-- 
2.43.0


From f0976572d57c018584fea9870fe8353ca7f98949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:00 +0000
Subject: [PATCH 04/98] fix: Brier score, Brier skill score and resolution
 always failed

The number of pairs is a scalar sum and has no index to reset.
---
 metcalcpy/util/pstd_statistics.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 8d9f96d..2ee7a01 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -42,8 +42,6 @@ def calculate_pstd_brier(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
-
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -76,7 +74,6 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -161,7 +158,6 @@ def calculate_pstd_resolution(input_data, columns_names):
         df_pct_perm = _calc_common_stats(columns_names, input_data)
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
         t_table = df_pct_perm['n_i'].sum()
-        t_table.reset_index(inplace=True, drop=True)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From c2dca685089aac52aa888cd3927e5131e5661578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:10 +0000
Subject: [PATCH 05/98] fix: area under the ROC curve of incomplete data is
 missing instead of an exception

The function also left warnings escalated to errors for the whole process.
---
 metcalcpy/util/pstd_statistics.py | 45 ++++++++++++++++---------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 2ee7a01..defff87 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -260,28 +260,31 @@ def calculate_pstd_roc_auc(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
+    try:
+        df_pct_perm = _calc_common_stats(columns_names, input_data)
+        roc = _calc_pct_roc(df_pct_perm)
+        # add 1st and last rows
+        final_roc = pd.DataFrame(
+            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
+            index=[0])
+        final_roc = pd.concat([final_roc, roc])
+        final_roc = pd.concat([final_roc,
+            pd.DataFrame(
+                {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
+                index=[0]) ])
+
+        final_roc.reset_index(inplace=True, drop=True)
+        roc_auc = 0
+        for index, row in final_roc.iterrows():
+            if index != 0:
+                roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
+                          * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
+
+        result = round_half_up(roc_auc, PRECISION)
 
-    df_pct_perm = _calc_common_stats(columns_names, input_data)
-    roc = _calc_pct_roc(df_pct_perm)
-    # add 1st and last rows
-    final_roc = pd.DataFrame(
-        {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
-        index=[0])
-    final_roc = pd.concat([final_roc, roc])
-    final_roc = pd.concat([final_roc,
-        pd.DataFrame(
-            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
-            index=[0]) ])
-
-    final_roc.reset_index(inplace=True, drop=True)
-    roc_auc = 0
-    for index, row in final_roc.iterrows():
-        if index != 0:
-            roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
-                      * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
-
-    result = round_half_up(roc_auc, PRECISION)
-
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
+        result = None
+    warnings.filterwarnings('ignore')
     return result
 
 
-- 
2.43.0


From 5979072bf4abfabd73455851182c931c57d3a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:29 +0000
Subject: [PATCH 06/98] fix: undefined continuous scores are missing instead of
 an exception

Negative mean squared errors, zero observation means and zero totals
escaped as ValueError, ZeroDivisionError or OverflowError.
---
 metcalcpy/util/pstd_statistics.py  |  2 +-
 metcalcpy/util/sl1l2_statistics.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index defff87..94312d7 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -214,7 +214,7 @@ def calculate_pstd_calibration(input_data, columns_names):
         calibration = oy_i / n_i
         result = round_half_up(calibration, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, OverflowError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 9324a0d..7099ed0 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -93,7 +93,7 @@ def calculate_fstdev(input_data, columns_names, aggregation=False):
         ffbar = sum_column_data_by_name(input_data, columns_names, 'ffbar') / total1
         result = calculate_stddev(fbar * total, ffbar * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -123,7 +123,7 @@ def calculate_ostdev(input_data, columns_names, aggregation=False):
         oobar = sum_column_data_by_name(input_data, columns_names, 'oobar') / total1
         result = calculate_stddev(obar * total, oobar * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -371,7 +371,7 @@ def calculate_me2(input_data, columns_names, aggregation=False):
         me = calculate_me(input_data, columns_names, aggregation)
         result = me ** 2
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -399,7 +399,7 @@ def calculate_mse(input_data, columns_names, aggregation=False):
         fobar = sum_column_data_by_name(input_data, columns_names, 'fobar') / total
         result = ffbar + oobar - 2 * fobar
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -449,7 +449,7 @@ def calculate_rmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_mse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -475,7 +475,7 @@ def calculate_si(input_data, columns_names, aggregation=False):
         obar = calculate_obar(input_data, columns_names, aggregation)
         result = rmse / obar
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -502,7 +502,7 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
         mse = calculate_mse(input_data, columns_names)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, OverflowError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -528,7 +528,7 @@ def calculate_bcmse(input_data, columns_names, aggregation=False):
         me = calculate_me(input_data, columns_names, aggregation)
         result = mse - me ** 2
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -552,7 +552,7 @@ def calculate_bcrmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_bcmse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 4f185e0f951ddee21725485ea1fbf8e6456f6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:29 +0000
Subject: [PATCH 07/98] fix: standard deviation of the error ignored
 aggregation

---
 metcalcpy/util/sl1l2_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 7099ed0..1855b95 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -498,8 +498,8 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
     warnings.filterwarnings('error')
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
-        me = calculate_me(input_data, columns_names)
-        mse = calculate_mse(input_data, columns_names)
+        me = calculate_me(input_data, columns_names, aggregation)
+        mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
     except (TypeError, ZeroDivisionError, OverflowError, Warning, ValueError):
-- 
2.43.0


From 4f1096239fb279a610c36c305b4fc8f31eaf874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:03 +0000
Subject: [PATCH 08/98] fix: wind directions were reported in radians instead
 of degrees

---
 metcalcpy/util/met_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/met_stats.py b/metcalcpy/util/met_stats.py
index 33770dc..bc28f38 100644
--- a/metcalcpy/util/met_stats.py
+++ b/metcalcpy/util/met_stats.py
@@ -48,7 +48,7 @@ def calc_direction(u_comp, v_comp):
     if abs(u_comp) < tolerance and abs(v_comp) < tolerance:
         return None
 
-    direction = np.arctan2(u_comp, v_comp)
+    direction = np.degrees(np.arctan2(u_comp, v_comp))
     # convert to [0,360]
     direction = direction - 360 * math.floor(direction / 360)
     return direction
-- 
2.43.0


From 2e129f74a60d95f910b154f2c7ffd50968282756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:22 +0000
Subject: [PATCH 09/98] fix: direction error of aggregated winds was lost for
 large totals

The observed wind vector was not normalised, so that its direction fell
under the calm-wind tolerance when many pairs were aggregated.
---
 metcalcpy/util/vcnt_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/vcnt_statistics.py b/metcalcpy/util/vcnt_statistics.py
index c24cc02..4287e44 100644
--- a/metcalcpy/util/vcnt_statistics.py
+++ b/metcalcpy/util/vcnt_statistics.py
@@ -468,7 +468,7 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         uf = ufbar / f_len
         vf = vfbar / f_len
 
-        o_len = calculate_vcnt_obar_speed(input_data, columns_names)
+        o_len = calculate_vcnt_obar_speed(input_data, columns_names, aggregation)
         uobar = sum_column_data_by_name(input_data, columns_names, 'uobar') / total
         vobar = sum_column_data_by_name(input_data, columns_names, 'vobar') / total
         uo = uobar / o_len
-- 
2.43.0


From e1b6dd6ca228f0218ce74a8b74b62e484d255dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:17 +0000
Subject: [PATCH 10/98] fix: ratios of matched and unmatched objects counted
 the wrong objects

---
 metcalcpy/util/mode_ratio_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 39b7571..d7ea142 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -136,7 +136,7 @@ def calculate_ratio_fsm_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -162,7 +162,7 @@ def calculate_ratio_fsu_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -240,7 +240,7 @@ def calculate_ratio_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -266,7 +266,7 @@ def calculate_ratio_osm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 8afc2d24cde3c89e3ebeddd51344b4a545d7c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:23 +0000
Subject: [PATCH 11/98] fix: object-based CSI and PODY did not follow
 hits/(hits+OSU+FSU) and hits/(hits+OSU)

---
 metcalcpy/util/mode_ratio_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index d7ea142..37373ea 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -838,7 +838,7 @@ def calculate_objcsi(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_2 = {'simple_flag': 1, 'matched_flag': 0}
 
@@ -871,7 +871,7 @@ def calculate_objpody(input_data, columns_names):
     warnings.filterwarnings('error')
     nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
-    denominator_filter_2 = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    denominator_filter_2 = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
 
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 30e0c2f21cdb4b20b6aaaf755ac2e3d70a4518c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:30 +0000
Subject: [PATCH 12/98] fix: area-weighted object ratios FSM/ASM, OSA/FSA and
 FAR used the wrong objects or weight

---
 metcalcpy/util/mode_arearat_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 2ca56f8..347bbd5 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -266,8 +266,8 @@ def calculate_arearat_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
-    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    denominator_filter = {'simple_flag': 1, 'matched_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -613,7 +613,7 @@ def calculate_arearat_osa_fsa(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     nominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
-    denominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
+    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -983,7 +983,7 @@ def calculate_objafar(input_data, columns_names):
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
         denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
-        result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
+        result = round_half_up(nominator / (denominator_1 + denominator_2 / 2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
-- 
2.43.0


From 95a6e8b3b2a59535c4a15020e68eb6fb92c30d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:07 +0000
Subject: [PATCH 13/98] fix: volume-weighted object ratios were always missing

---
 metcalcpy/util/mode_3d_volrat_statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_3d_volrat_statistics.py b/metcalcpy/util/mode_3d_volrat_statistics.py
index 1f66035..ff8dbdb 100644
--- a/metcalcpy/util/mode_3d_volrat_statistics.py
+++ b/metcalcpy/util/mode_3d_volrat_statistics.py
@@ -11,6 +11,8 @@
 """
 Program Name: mode_3d_volrat_statistics.py
 """
+import numpy as np
+
 from metcalcpy.util.mode_arearat_statistics import *
 from metcalcpy.util.utils import column_data_by_name_value, THREE_D_DATA_FILTER
 
@@ -639,4 +641,4 @@ def rename_column(columns_names):
             columns_names_new.insert(index, 'area')
         else:
             columns_names_new.insert(index, name)
-    return columns_names_new
+    return np.array(columns_names_new)
-- 
2.43.0


From 1e526e1dfe0877c35b5b33f417ae21d550e8685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:22 +0000
Subject: [PATCH 14/98] fix: weight FE, VL1L2_FSPD and VL1L2_OSPD columns by
 the number of pairs

The aggregation divides the columns of these statistics by the pooled total,
but the columns were not multiplied by the total of each record first.
---
 metcalcpy/agg_stat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 1bcfd7f..d0afa52 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -146,6 +146,7 @@ class AggStat:
         'bcmse': ['ffbar', 'oobar', 'fobar', 'fbar', 'obar'],
         'bcrmse': ['ffbar', 'oobar', 'fobar', 'fbar', 'obar'],
         'pr_corr': ['ffbar', 'oobar', 'fobar', 'fbar', 'obar'],
+        'fe': ['fbar', 'obar'],
 
         'fgbar': ['fgbar'],
         'ogbar': ['ogbar'],
@@ -179,6 +180,8 @@ class AggStat:
         'vl1l2_bias': ['uvffbar', 'uvoobar'],
         'vl1l2_fvar': ['uvffbar', 'f_speed_bar'],
         'vl1l2_ovar': ['uvoobar', 'o_speed_bar'],
+        'vl1l2_fspd': ['ufbar', 'vfbar'],
+        'vl1l2_ospd': ['uobar', 'vobar'],
         'vl1l2_speed_err': ['ufbar', 'vfbar', 'uobar', 'vobar'],
         'vl1l2_rmsve': ['uvffbar', 'uvfobar', 'uvoobar'],
         'vl1l2_msve': ['uvffbar', 'uvfobar', 'uvoobar'],
-- 
2.43.0


From fed1bf211d64370346e3117859fff74559b73967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:22 +0000
Subject: [PATCH 15/98] fix: aggregate ECNT_SPREAD_PLUS_OERR from its own
 column

The variance was computed from spread_oerr instead of spread_plus_oerr.
---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index d0afa52..6eebf0f 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -491,7 +491,7 @@ class AggStat:
 
         variance = data_for_prepare['spread'].values * data_for_prepare['spread'].values
         variance_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
-        variance_plus_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
+        variance_plus_oerr = data_for_prepare['spread_plus_oerr'].values * data_for_prepare['spread_plus_oerr'].values
 
         data_for_prepare['mse'] = mse * data_for_prepare['total'].values
         data_for_prepare['mse_oerr'] = mse_oerr * data_for_prepare['total'].values
-- 
2.43.0


From 493a380030633432272d699eef6a3e634320b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:22 +0000
Subject: [PATCH 16/98] fix: allow SSVAR_TOTAL in the aggregation

Statistics without weighted columns raised KeyError for the SSVAR line type.
---
 metcalcpy/agg_stat.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 6eebf0f..eb33317 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -535,9 +535,10 @@ class AggStat:
         data_for_prepare.rename(columns={"total": "total_orig", "bin_n": "total"}, inplace=True)
         self.column_names = data_for_prepare.columns.values
 
-        for column in self.STATISTIC_TO_FIELDS[self.statistic]:
-            data_for_prepare[column] \
-                = data_for_prepare[column].values * data_for_prepare['total'].values
+        if self.statistic in self.STATISTIC_TO_FIELDS.keys():
+            for column in self.STATISTIC_TO_FIELDS[self.statistic]:
+                data_for_prepare[column] \
+                    = data_for_prepare[column].values * data_for_prepare['total'].values
 
     def _prepare_nbr_cnt_data(self, data_for_prepare):
         """Prepares nbrcnt data.
-- 
2.43.0


From 6212d3e707a65da7d854b8667d8785533af1504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:22 +0000
Subject: [PATCH 17/98] fix: weight the observed rate of neighborhood records
 by the number of pairs

The aggregated O_RATE, AFSS and UFSS divided the unweighted observed rate by
the pooled total.
---
 metcalcpy/agg_stat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index eb33317..47996e8 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -553,9 +553,11 @@ class AggStat:
         fss_den = (data_for_prepare['fbs'].values / (1.0 - data_for_prepare['fss'].values)) * total
 
         f_rate = total * data_for_prepare['f_rate'].values
+        o_rate = total * data_for_prepare['o_rate'].values
         data_for_prepare['fbs'] = fbs
         data_for_prepare['fss'] = fss_den
         data_for_prepare['f_rate'] = f_rate
+        data_for_prepare['o_rate'] = o_rate
 
     def _prepare_pct_data(self, data_for_prepare):
         """Prepares pct data.
-- 
2.43.0


From 1ad6f27d4d1ce4fcea1897db10a61eddaba6265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:16 +0000
Subject: [PATCH 18/98] fix: do not turn warnings into errors for the whole
 process

Event equalization and the aggregation of field values changed the global
warnings filter, so that a harmless warning anywhere later in the process
raised an exception.
---
 metcalcpy/agg_stat_eqz.py            | 2 --
 metcalcpy/agg_stat_event_equalize.py | 2 --
 metcalcpy/sum_stat.py                | 2 --
 metcalcpy/util/utils.py              | 3 ---
 4 files changed, 9 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 0102389..9dc4924 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -105,8 +105,6 @@ class AggStatEventEqz:
             Returns:
                 A data frame that contains equalized records
         """
-        warnings.filterwarnings('error')
-
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
             for series_var, series_var_vals in self.params['series_val_' + axis].items():
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 9a5d49f..534d070 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -94,7 +94,6 @@ class AggStatEventEqualize:
 
                 output_ee_data = output_ee_data.drop('equalize', axis=1)
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
-                warnings.simplefilter(action='error', category=FutureWarning)
                 all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
                 all_series_vars = {}
                 for key in self.params['series_val_2']:
@@ -145,7 +144,6 @@ class AggStatEventEqualize:
             if output_ee_data.empty:
                 output_ee_data = series_data_after_ee
             else:
-                warnings.simplefilter(action="error", category=FutureWarning)
                 output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
 
         return output_ee_data
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 1b7030d..9713476 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -184,8 +184,6 @@ class SumStat:
         Args:
             axis - y1 or y1 axis
         """
-        warnings.filterwarnings('error')
-
         # check if indy_vals have a field that need to be aggregated - the field with ';'
         has_agg_indy_field = any(any(GROUP_SEPARATOR in i for i in item) for item in self.params['indy_vals'])
 
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 7c345d6..83c6988 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -472,8 +472,6 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                 Pandas DataFrame with aggregates statistics
             """
 
-    warnings.filterwarnings('error')
-
     # get unique values for valid date/time and lead time
     unique_valid = input_data_frame.fcst_valid_beg.unique()
     unique_lead = input_data_frame.fcst_lead.unique()
@@ -731,7 +729,6 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             if output_ee_data.empty:
                 output_ee_data = series_data_after_ee
             else:
-                warnings.simplefilter(action="error", category=FutureWarning)
                 output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
 
     try:
-- 
2.43.0


From 9f76b9e3c3193d3036a281b908f2bc26efe7f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:16 +0000
Subject: [PATCH 19/98] fix: aggregate the counts of contingency records

The names of the columns were passed where the column was expected and the
aggregation of contingency records always raised. The neighborhood line types
are also known under the names the aggregation tool uses for them.
---
 metcalcpy/util/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 83c6988..c68df06 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -583,11 +583,11 @@ def calc_series_sums(input_df, line_type):
     sums_data_frame['total'] = [total]
 
     # proceed for the line type
-    if line_type in ('ctc', 'nbrctc'):
+    if line_type in ('ctc', 'nbrctc', 'nbr_ctc'):
         column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
         for column in column_names:
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
-                                                               column_names, column_names)]
+                                                               input_df.columns, column)]
 
     elif line_type == 'sl1l2':
         column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
@@ -626,7 +626,7 @@ def calc_series_sums(input_df, line_type):
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
 
-    elif line_type == 'nbrcnt':
+    elif line_type in ('nbrcnt', 'nbr_cnt'):
         dbl_fbs = np.nansum(input_df['fbs'] * input_df.total.astype(float)) / total
         dbl_fss_den = np.nansum(
             (input_df['fbs'] / (1.0 - input_df['fss'])) * input_df.total.astype(float)) \
-- 
2.43.0


From cbd534a56109c16dc50e98cac90142cf51688e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:16 +0000
Subject: [PATCH 20/98] fix: keep the aggregated values of anomaly partial sums

The sums were stored under the names of the sl1l2 columns, so the records kept
the values of the first one together with the total of all of them.
---
 metcalcpy/util/utils.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c68df06..1c1b923 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -596,16 +596,13 @@ def calc_series_sums(input_df, line_type):
                                        / total]
 
     elif line_type == 'sal1l2':
-        sums_data_frame['fbar'] = [np.nansum(input_df['fabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['obar'] = [np.nansum(input_df['oabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['fobar'] = [np.nansum(input_df['foabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['ffbar'] = [np.nansum(input_df['ffabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['oobar'] = [np.nansum(input_df['ooabar'] * input_df.total.astype(float))
-                                    / total]
+        # the summary tool renames the anomaly columns to the names of the sl1l2 columns
+        column_names = ['fabar', 'oabar', 'foabar', 'ffabar', 'ooabar']
+        if 'fabar' not in input_df.columns:
+            column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
+        for column in column_names:
+            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
+                                       / total]
 
     elif line_type == 'vl1l2':
         column_names = ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar',
-- 
2.43.0


From 2cea0614c327baab258a173aa2c90ec11ade0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:16 +0000
Subject: [PATCH 21/98] fix: keep lead times numeric when aggregating over them

The aggregated record got its lead as text in a numeric column, which the
installed pandas rejects.
---
 metcalcpy/util/utils.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 1c1b923..2f9043f 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -546,17 +546,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
 
                         # replace the aggregated field name
 
-                        # some versions of pandas will generate an error when assigning a numerical value with a ';'
-                        # strip off the ';' to make this "version-independent"
-                        if ';' in series_val:
-                            sep_val = series_val.split(';')
-
-                        # different versions of pandas may generate a SettingWithCopy Warning
-                        # For pandas 1.2, 1.3, and 1.5, use the df.at, but for pandas 1.4, use the df.loc.
-                        try:
-                            rows_for_agg.at[0, series_var] = sep_val[0]
-                        except:
-                            rows_for_agg.loc[0, series_var] = sep_val[0]
+                        # the lead is numeric: record the first of the aggregated values
+                        rows_for_agg.at[0, series_var] = single_values_int[0]
 
                         # add it to the result
                         input_data_frame = pd.concat([input_data_frame,(rows_for_agg.iloc[:1])])
-- 
2.43.0


From d6df6e556a3c56499222e3862b96a42b3adc5d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:38 +0000
Subject: [PATCH 22/98] fix: skip cases without records when aggregating field
 values

A combination of valid and lead times without records raised an exception or
added an empty record.
---
 metcalcpy/util/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 2f9043f..f81df38 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -492,6 +492,9 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                                 & (input_data_frame.fcst_lead == lead)
                                 & (input_data_frame[series_var].isin(single_values))
                                 ]
+                            # not every combination of valid and lead has records
+                            if rows_for_agg.empty:
+                                continue
                             rows_indexes = rows_for_agg.index.values
                             # reset indexes
                             rows_for_agg.reset_index(inplace=True, drop=True)
@@ -528,6 +531,9 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             (input_data_frame.fcst_valid_beg == valid)
                             & (input_data_frame[series_var].isin(single_values_int))
                             ]
+                        # not every valid has records for these leads
+                        if rows_for_agg.empty:
+                            continue
 
                         rows_indexes = rows_for_agg.index.values
 
-- 
2.43.0


From 0fa276c1b754834d43acb5c3d12218f246938af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:38 +0000
Subject: [PATCH 23/98] fix: do not lose aggregated records when several fields
 are aggregated

Aggregated records all got the same index and were dropped together when the
next group or field was aggregated.
---
 metcalcpy/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index f81df38..b145b85 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -513,7 +513,7 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             rows_for_agg.at[0, series_var] = series_val
 
                             # add it to the result
-                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]])
+                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]], ignore_index=True)
 
                     else:
                         # if the aggregated field is 'fcst_lead'
@@ -556,7 +556,7 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                         rows_for_agg.at[0, series_var] = single_values_int[0]
 
                         # add it to the result
-                        input_data_frame = pd.concat([input_data_frame,(rows_for_agg.iloc[:1])])
+                        input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]], ignore_index=True)
 
     return input_data_frame
 
-- 
2.43.0


From dcf99d3281a041799801a50d7b8ca06aedbf7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:38 +0000
Subject: [PATCH 24/98] fix: aggregate RMSE, spread and skill scores of
 ensemble records

The aggregated record kept the RMSE, CRPSS and RPSS of its first record, and
spreads were averaged although the statistics treat them as root mean squares.
---
 metcalcpy/util/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index b145b85..291a83a 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -647,10 +647,18 @@ def calc_series_sums(input_df, line_type):
         sums_data_frame['mse'] = [np.nansum(input_df['total'] * mse) / total]
         sums_data_frame['mse_oerr'] = [np.nansum(input_df['total'] * mse_oerr) / total]
         sums_data_frame['crps_climo'] = [np.nansum(input_df['total'] * crps_climo) / total]
-        column_names = ['me', 'crps', 'ign', 'spread', 'me_oerr', 'spread_oerr', 'spread_plus_oerr']
+        column_names = ['me', 'crps', 'ign', 'me_oerr']
         for column in column_names:
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
+        # root mean square errors and spreads are aggregated as squares
+        sums_data_frame['rmse'] = np.sqrt(sums_data_frame['mse'])
+        sums_data_frame['rmse_oerr'] = np.sqrt(sums_data_frame['mse_oerr'])
+        for column in ['spread', 'spread_oerr', 'spread_plus_oerr']:
+            variance = input_df[column] * input_df[column]
+            sums_data_frame[column] = [np.sqrt(np.nansum(variance * input_df.total.astype(float))
+                                               / total)]
+        sums_data_frame['crpss'] = 1 - sums_data_frame['crps'] / sums_data_frame['crps_climo']
     elif line_type == 'rps':
         d_rps_climo = input_df['rps'] / (1 - input_df['rpss'])
         sums_data_frame['rps'] = [np.nansum(input_df["rps"] * input_df.total.astype(float))
@@ -659,6 +667,7 @@ def calc_series_sums(input_df, line_type):
                                        / total]
         sums_data_frame['rps_climo'] = [np.nansum(d_rps_climo * input_df.total.astype(float))
                                         / total]
+        sums_data_frame['rpss'] = 1 - sums_data_frame['rps'] / sums_data_frame['rps_climo']
 
     return sums_data_frame
 
-- 
2.43.0


From 8a4bc71db7811ebf95e842364c7be00d999723db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:20 +0000
Subject: [PATCH 25/98] fix: aggregate the newer columns of ensemble records

The empirical CRPS, spread, MAE and bias-ratio columns kept the values of the
first record when field values were aggregated.
---
 metcalcpy/util/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 291a83a..d069f5a 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -651,6 +651,17 @@ def calc_series_sums(input_df, line_type):
         for column in column_names:
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
+        for column in ['crpscl', 'crps_emp', 'crpscl_emp', 'crps_emp_fair', 'spread_md', 'mae', 'mae_oerr']:
+            if column in input_df.columns:
+                sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
+                                           / total]
+        # errors of members above and below the observation have their own counts
+        for side in ['ge', 'lt']:
+            if f'me_{side}_obs' in input_df.columns:
+                count = np.nansum(input_df[f'n_{side}_obs'].astype(float))
+                weighted = np.nansum(input_df[f'me_{side}_obs'] * input_df[f'n_{side}_obs'].astype(float))
+                sums_data_frame[f'n_{side}_obs'] = [count]
+                sums_data_frame[f'me_{side}_obs'] = [weighted / count if count != 0 else np.nan]
         # root mean square errors and spreads are aggregated as squares
         sums_data_frame['rmse'] = np.sqrt(sums_data_frame['mse'])
         sums_data_frame['rmse_oerr'] = np.sqrt(sums_data_frame['mse_oerr'])
-- 
2.43.0


From d25f814ba3e463cf6586926c51d12ea2af634c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:36 +0000
Subject: [PATCH 26/98] fix: aggregate special fields in the summary statistics

Fields such as EAST;NMT were never detected because the separator was searched
in the single characters of the names, and numeric independent values never
matched their text form.
---
 metcalcpy/sum_stat.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 9713476..efbbd8a 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -185,11 +185,11 @@ class SumStat:
             axis - y1 or y1 axis
         """
         # check if indy_vals have a field that need to be aggregated - the field with ';'
-        has_agg_indy_field = any(any(GROUP_SEPARATOR in i for i in item) for item in self.params['indy_vals'])
+        has_agg_indy_field = any(item is not None and ';' in item for item in self.params['indy_vals'])
 
         # look if there is a field that need to be aggregated first - the field with ';'
         series_var_val = self.params['series_val_' + axis]
-        has_agg_series_field = any(any(GROUP_SEPARATOR in i for i in item) for item in series_var_val)
+        has_agg_series_field = any(';' in val for item in series_var_val for val in series_var_val[item])
 
         if series_var_val and (has_agg_indy_field or has_agg_series_field):
             # the special field was detected
@@ -203,8 +203,14 @@ class SumStat:
                     filtered_by_indy = self.input_data
                 else:
                     # filter by value or split the value and filter by multiple values
+                    actual_indy_vals = indy_val.split(';')
+                    for ind, val in enumerate(actual_indy_vals):
+                        if is_string_integer(val):
+                            actual_indy_vals[ind] = int(val)
+                        elif is_string_strictly_float(val):
+                            actual_indy_vals[ind] = float(val)
                     filtered_by_indy = self.input_data[
-                        self.input_data[self.params['indy_var']].isin(indy_val.split(';'))]
+                        self.input_data[self.params['indy_var']].isin(actual_indy_vals)]
 
                 for point in all_points:
                     point_data = filtered_by_indy
-- 
2.43.0


From 79459ead7eab180533d733c4d7a1be973d198404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:22 +0000
Subject: [PATCH 27/98] fix: equalize only the records that match all series
 variables

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index d069f5a..b6a4e16 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -710,6 +710,7 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             if len(params['series_val_' + axis]) == 0:
                 series_data_for_ee = input_data
             else:
+                series_data_for_ee = input_data
                 for series_var, series_var_vals in params['series_val_' + axis].items():
                     # ungroup series value if needed
                     series_var_vals_no_group = []
@@ -721,7 +722,6 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
 
                     # filter input data based on fcst_var, statistic
                     # and all series variables values
-                    series_data_for_ee = input_data
                     if series_var in input_data.keys():
                         series_data_for_ee = series_data_for_ee[
                             series_data_for_ee[series_var].isin(series_var_vals_no_group)]
-- 
2.43.0


From 61b95fcc96e29d8e15062863745d56c380a6686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:22 +0000
Subject: [PATCH 28/98] fix: equalize both axes against the series values of
 both axes

---
 metcalcpy/util/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index b6a4e16..26062fd 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -805,7 +805,8 @@ def perform_event_equalization(params, input_data):
         # create a single unique dictionary from series for Y1 and Y2 to us in EE
         all_series = {**params['series_val_1'], **params['series_val_2']}
         for key in all_series:
-            all_series[key] = list(set(all_series[key]))
+            all_series[key] = list(set(list(params['series_val_1'].get(key, []))
+                                       + list(params['series_val_2'].get(key, []))))
 
         # run EE on run event equalizer on Y1 and Y2
         output_ee_data = event_equalize(all_ee_records, params['indy_var'],
-- 
2.43.0


From 46a07006eba3f61cd5da38039657385fbfa67a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:22 +0000
Subject: [PATCH 29/98] fix: equalize MODE records of both axes against the
 series values of both axes

---
 metcalcpy/agg_stat_event_equalize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 534d070..711683e 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -96,9 +96,9 @@ class AggStatEventEqualize:
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
                 all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
                 all_series_vars = {}
-                for key in self.params['series_val_2']:
-                    all_series_vars[key] = np.unique(self.params['series_val_2'][key]
-                                                     + self.params['series_val_2'][key])
+                for key in {**self.params['series_val_1'], **self.params['series_val_2']}:
+                    all_series_vars[key] = np.unique(list(self.params['series_val_1'].get(key, []))
+                                                     + list(self.params['series_val_2'].get(key, [])))
 
                 output_ee_data = event_equalize(all_ee_records, self.params['indy_var'],
                                                 all_series_vars,
-- 
2.43.0


From 65bfbbeac14bf08c942a88e629ceb683880a289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:22 +0000
Subject: [PATCH 30/98] fix: equalize MODE records over all values of each
 fixed variable

---
 metcalcpy/agg_stat_event_equalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 711683e..d09d324 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -77,9 +77,9 @@ class AggStatEventEqualize:
                 fix_vals_permuted_list = []
                 for key in self.params['fixed_vars_vals_input']:
                     vals_permuted = list(itertools.product(*self.params['fixed_vars_vals_input'][key].values()))
-                    fix_vals_permuted_list.append(vals_permuted)
+                    fix_vals_permuted_list.append([item for sublist in vals_permuted for item in sublist])
 
-                fix_vals_permuted = [item for sublist in fix_vals_permuted_list for item in sublist]
+                fix_vals_permuted = fix_vals_permuted_list
 
             else:
                 fix_vals_permuted = []
-- 
2.43.0


From dcf85db95d8f86d5d57583009379864475af8633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:22 +0000
Subject: [PATCH 31/98] fix: do not repeat equalized MODE records for each
 series variable

---
 metcalcpy/agg_stat_event_equalize.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index d09d324..2dad7e0 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -121,7 +121,8 @@ class AggStatEventEqualize:
                A data frame that contains equalized records
        """
 
-        output_ee_data = pd.DataFrame()
+        # filter input data based on all series variables values
+        series_data_for_ee = self.input_data
         for series_var, series_var_vals in self.params['series_val_' + axis].items():
             # ungroup series value
             series_var_vals_no_group = []
@@ -129,24 +130,15 @@ class AggStatEventEqualize:
                 split_val = val.split(GROUP_SEPARATOR)
                 series_var_vals_no_group.extend(split_val)
 
-            # filter input data based on fcst_var, statistic and all series variables values
-            series_data_for_ee = self.input_data[
-                self.input_data[series_var].isin(series_var_vals_no_group)
+            series_data_for_ee = series_data_for_ee[
+                series_data_for_ee[series_var].isin(series_var_vals_no_group)
             ]
-            # perform EE on filtered data
-            series_data_after_ee = \
-                event_equalize(series_data_for_ee, self.params['indy_var'],
-                               self.params['series_val_' + axis],
-                               list(self.params['fixed_vars_vals_input'].keys()),
-                               fix_vals_permuted, True, False)
-
-            # append EE data to result
-            if output_ee_data.empty:
-                output_ee_data = series_data_after_ee
-            else:
-                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
 
-        return output_ee_data
+        # perform EE on filtered data
+        return event_equalize(series_data_for_ee, self.params['indy_var'],
+                              self.params['series_val_' + axis],
+                              list(self.params['fixed_vars_vals_input'].keys()),
+                              fix_vals_permuted, True, False)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 910357088bc046adc76e8f82dd224760def881e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:22 +0000
Subject: [PATCH 32/98] fix: do not repeat records equalized against previous
 cases for each series variable

---
 metcalcpy/agg_stat_eqz.py | 47 ++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 9dc4924..666d1ff 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -107,6 +107,10 @@ class AggStatEventEqz:
         """
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
+            # filter input data and previous cases on the same fcst_var
+            # and all series variables values
+            series_data_for_ee = self.input_data[self.input_data['fcst_var'] == fcst_var]
+            series_data_for_prev_cases = prev_cases[prev_cases['fcst_var'] == fcst_var]
             for series_var, series_var_vals in self.params['series_val_' + axis].items():
 
                 series_var_vals_no_group = []
@@ -114,31 +118,24 @@ class AggStatEventEqz:
                     split_val = val.split(GROUP_SEPARATOR)
                     series_var_vals_no_group.extend(split_val)
 
-                # filter input data based on fcst_var, statistic and all series variables values
-                series_data_for_ee = self.input_data[
-                    (self.input_data['fcst_var'] == fcst_var)
-                    & (self.input_data[series_var].isin(series_var_vals_no_group))
-                    ]
-                # filter previous cases on the same  fcst_var,
-                # statistic and all series variables values
-                series_data_for_prev_cases = prev_cases[
-                    (prev_cases['fcst_var'] == fcst_var)
-                    & (prev_cases[series_var].isin(series_var_vals_no_group))
-                    ]
-                # get unique cases from filtered previous cases
-
-                series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
-
-                # perform ee
-                series_data_after_ee = event_equalize_against_values(
-                    series_data_for_ee,
-                    series_data_for_prev_cases_unique)
-
-                # append EE data to result
-                if output_ee_data.empty:
-                    output_ee_data = series_data_after_ee
-                else:
-                    output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+                series_data_for_ee = series_data_for_ee[
+                    series_data_for_ee[series_var].isin(series_var_vals_no_group)]
+                series_data_for_prev_cases = series_data_for_prev_cases[
+                    series_data_for_prev_cases[series_var].isin(series_var_vals_no_group)]
+
+            # get unique cases from filtered previous cases
+            series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
+
+            # perform ee
+            series_data_after_ee = event_equalize_against_values(
+                series_data_for_ee,
+                series_data_for_prev_cases_unique)
+
+            # append EE data to result
+            if output_ee_data.empty:
+                output_ee_data = series_data_after_ee
+            else:
+                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
         return output_ee_data
 
 
-- 
2.43.0


From 8db8a8cc5b0906f1d0e049cca23f1b8ca40cfb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:20 +0000
Subject: [PATCH 33/98] fix: use the requested alpha for bootstrap confidence
 intervals

---
 metcalcpy/agg_eclv.py           | 1 +
 metcalcpy/agg_stat.py           | 1 +
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index eed39eb..91c81bb 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -177,6 +177,7 @@ class AggEclv:
                         num_iterations=self.params['num_iterations'],
                         num_threads=self.params['num_threads'],
                         ci_method=self.params['method'],
+                        alpha=self.params.get('alpha', 0.05),
                         save_data=False,
                         block_length=block_length,
                         eclv=True
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 47996e8..a45db38 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -835,6 +835,7 @@ class AggStat:
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
+                    alpha=self.params.get('alpha', 0.05),
                     save_data=has_derived_series,
                     block_length=block_length)
 
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 7514461..5547e9d 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -234,7 +234,8 @@ class AggStatBootstrap:
                     stat_func=self._calc_stats,
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
-                    ci_method=self.params['method'])
+                    ci_method=self.params['method'],
+                    alpha=self.params.get('alpha', 0.05))
 
             except KeyError as err:
                 results = BootstrapResults(None, None, None)
-- 
2.43.0


From 9cb6a815a5708cacdb4534156924a03619b07817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:20 +0000
Subject: [PATCH 34/98] fix: resample only the cases of the current independent
 value

---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 5547e9d..960e0ef 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -118,12 +118,12 @@ class AggStatBootstrap:
             if len(self.params['fcst_var_val_' + axis]) > 0 and 'fcst_var' in self.input_data.columns:
                 fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
 
-            cases = []
             out_frame = self._init_out_frame(all_fields_values.keys(), all_points)
             point_to_distrib = {}
 
             # run the bootstrap flow for each independent variable value
             for indy_val in indy_vals:
+                cases = []
                 # extract the records for the current indy value
                 if is_string_integer(indy_val):
                     filtered_by_indy_data = \
-- 
2.43.0


From ded6867faee58d2220846a2b17a761fc345d361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:20 +0000
Subject: [PATCH 35/98] fix: count a resampled case as many times as it was
 drawn

---
 metcalcpy/agg_stat_bootstrap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 960e0ef..bb01bd0 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -267,8 +267,9 @@ class AggStatBootstrap:
             # bootstrapped case
             stat_values = []
             for row in cases:
-                values_ind = self.series_data['case'].isin(row.flatten())
-                values = self.series_data[values_ind]
+                # a case contributes as many times as it was drawn
+                values = pd.DataFrame({'case': row.flatten()}).merge(self.series_data, on='case')
+                values = values[self.series_data.columns].to_numpy()
                 stat_values.append([globals()[func_name](values, self.column_names)])
         else:
             raise KeyError("can't calculate statistic")
-- 
2.43.0


From 3b05250367d6e52d7d914c42fc23ef9ef53dd287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:20 +0000
Subject: [PATCH 36/98] fix: event equalization in the MODE bootstrap lost its
 data

---
 metcalcpy/agg_stat_eqz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 666d1ff..20d9fda 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -99,6 +99,7 @@ class AggStatEventEqz:
         output_ee_data.to_csv(self.params['agg_stat_output'],
                               index=None, header=True, mode='w',
                               sep="\t", na_rep="NA")
+        return output_ee_data
 
     def perform_ee_on_axis(self, prev_cases, axis='1'):
         """Performs event equalisation against previously calculated cases for the selected axis
-- 
2.43.0


From c00fcde29a35b8fcfda73a80923c97efd8aaab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:20 +0000
Subject: [PATCH 37/98] fix: derived curves of data without statistic names

---
 metcalcpy/agg_stat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index a45db38..c6fe70d 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -313,7 +313,7 @@ class AggStat:
                 stat_2 = values_2[0, stat_column_index].lower()
                 func_name_1 = f'calculate_{stat_1}'
                 func_name_2 = f'calculate_{stat_2}'
-            except ValueError:
+            except (ValueError, IndexError):
                 func_name_1 = f'calculate_{self.statistic}'
                 func_name_2 = f'calculate_{self.statistic}'
 
@@ -364,7 +364,7 @@ class AggStat:
                     stat_2 = values_2[0, stat_column_index].lower()
                     func_name_1 = f'calculate_{stat_1}'
                     func_name_2 = f'calculate_{stat_2}'
-                except ValueError:
+                except (ValueError, IndexError):
                     func_name_1 = f'calculate_{self.statistic}'
                     func_name_2 = f'calculate_{self.statistic}'
 
-- 
2.43.0


From 096d9933c2054ec4ab161a8411fde8abd427f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:55 +0000
Subject: [PATCH 38/98] fix: no confidence interval when all resampled
 statistics are missing

---
 metcalcpy/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index f105165..2845f8f 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -519,7 +519,7 @@ def _all_the_same(elements):
     if elements.size == 0:
         return True
     try:
-        result = len(_np.unique(elements[elements != _np.array([None])])) == 1
+        result = len(_np.unique(elements[elements != _np.array([None])])) <= 1
     except TypeError:
         result = False
     return result
-- 
2.43.0


From 76791b42cebd19475015ac65ba3fac86e7ddbee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:41 +0000
Subject: [PATCH 39/98] fix: save MODE bootstrap results in the row of their
 statistic and series

---
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index bb01bd0..cf6d9f6 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -192,7 +192,8 @@ class AggStatBootstrap:
                                     filter_list[i] = float(filter_val)
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
-                            out_frame_filter.append((out_frame[field].isin(filter_list)))
+                            out_frame_filter.append((out_frame[field] == filter_value))
+                        out_frame_filter.append((out_frame['stat_name'] == stat_upper))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 0d865ce27bf10e56e2303ef3f2eb60400f161b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:41 +0000
Subject: [PATCH 40/98] fix: use only the records of the requested variable in
 the MODE bootstrap

---
 metcalcpy/agg_stat_bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index cf6d9f6..f71ba38 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -194,6 +194,9 @@ class AggStatBootstrap:
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field] == filter_value))
                         out_frame_filter.append((out_frame['stat_name'] == stat_upper))
+                        # add fcst var
+                        if fcst_var is not None:
+                            all_filters.append((filtered_by_indy_data['fcst_var'].isin([fcst_var])))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 6153bd927b2d6fac2c6a17c611fe7140ebfea963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:41 +0000
Subject: [PATCH 41/98] fix: points without MODE records are missing instead of
 an exception

---
 metcalcpy/agg_stat_bootstrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index f71ba38..335f580 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -223,6 +223,11 @@ class AggStatBootstrap:
         return out_frame
 
     def _get_bootstrapped_stats(self, series_data, cases):
+        # if the data frame is empty - do nothing and return an empty object
+        if series_data.empty:
+            return BootstrapResults(lower_bound=None,
+                                    value=None,
+                                    upper_bound=None)
         self.series_data = sort_data(series_data)
         if self.params['num_iterations'] == 1:
             stat_val = self._calc_stats(cases)[0]
-- 
2.43.0


From e4ca590bcc5cd186d844b7f54e468aaf2739578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:37 +0000
Subject: [PATCH 42/98] fix: MODE bootstrap when event equalization keeps no
 records

---
 metcalcpy/agg_stat_bootstrap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 335f580..6854712 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -298,9 +298,10 @@ class AggStatBootstrap:
                 self._perform_event_equalization()
 
             # build the case information for each record
-            fcst_valid = self.input_data.loc[:, 'fcst_valid'].astype(str)
-            indy_var = self.input_data.loc[:, self.params['indy_var']].astype(str)
-            self.input_data['case'] = fcst_valid + '#' + indy_var
+            if not self.input_data.empty:
+                fcst_valid = self.input_data.loc[:, 'fcst_valid'].astype(str)
+                indy_var = self.input_data.loc[:, self.params['indy_var']].astype(str)
+                self.input_data['case'] = fcst_valid + '#' + indy_var
 
             # get results for axis1
             out_frame = self._proceed_with_axis("1")
-- 
2.43.0


From 624be4ff5427350483cf68f3d19b725eee62ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:31 +0000
Subject: [PATCH 43/98] fix: add the base rate point to the economic value when
 requested

---
 metcalcpy/agg_eclv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 91c81bb..085b7e3 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -85,7 +85,7 @@ class AggEclv:
             self.add_base_rate = self.params['add_base_rate']
         else:
             self.add_base_rate = 0
-        if self.add_base_rate != 0 or self.add_base_rate != 1:
+        if self.add_base_rate != 0 and self.add_base_rate != 1:
             self.add_base_rate = 0
 
         try:
@@ -125,7 +125,8 @@ class AggEclv:
             stat_values = []
             for row in values:
                 stat_value = [
-                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'], self.steps)]
+                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'], self.steps,
+                                   self.add_base_rate)]
                 stat_values.append(stat_value)
 
         else:
@@ -236,7 +237,7 @@ class AggEclv:
             for field_ind, field in enumerate(series_val.keys()):
                 filter_value = point[field_ind]
                 filter_list = [filter_value]
-                out_frame_local[field] = [filter_value] * (len(self.steps))
+                out_frame_local[field] = [filter_value] * (len(self.steps) + self.add_base_rate)
                 for i, filter_val in enumerate(filter_list):
                     if is_string_integer(filter_val):
                         filter_list[i] = int(filter_val)
-- 
2.43.0


From b229293b6fc8d264dccbebf79357513163230cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:31 +0000
Subject: [PATCH 44/98] fix: undefined economic value is missing instead of an
 exception

---
 metcalcpy/agg_eclv.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 085b7e3..572818d 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -144,9 +144,10 @@ class AggEclv:
 
         # if the data frame is empty - do nothing and return an empty object
         if series_data.empty:
-            return BootstrapResults(lower_bound=None,
-                                    value=None,
-                                    upper_bound=None)
+            return {ind: BootstrapResults(lower_bound=None,
+                                          value=None,
+                                          upper_bound=None)
+                    for ind in range(len(thresholds))}
 
         data = series_data[self.column_names].to_numpy()
         boot_stat_thresh = {}
@@ -261,8 +262,9 @@ class AggEclv:
 
             for thresh_ind, thresh in enumerate(thresholds):
                 out_frame_local['thresh_i'] = [thresh] * (len(self.steps) + self.add_base_rate)
-                out_frame_local['x_pnt_i'] = bootstrap_results[thresh_ind].value['cl']
-                out_frame_local['y_pnt_i'] = bootstrap_results[thresh_ind].value['V']
+                eclv_value = bootstrap_results[thresh_ind].value
+                out_frame_local['x_pnt_i'] = None if eclv_value is None else eclv_value['cl']
+                out_frame_local['y_pnt_i'] = None if eclv_value is None else eclv_value['V']
                 out_frame_local['nstats'] = [len(point_data)] * (len(self.steps) + self.add_base_rate)
                 if self.params['num_iterations'] > 1:
                     out_frame_local['stat_btcu'] = bootstrap_results[thresh_ind].upper_bound
-- 
2.43.0


From e8a89983939f6f8039745093e7f691b0c487e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:47 +0000
Subject: [PATCH 45/98] fix: no economic value interval when it is undefined
 for all samples

---
 metcalcpy/bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index 2845f8f..10b3173 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -382,7 +382,8 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
         stat_btcl = [None] * steps_len
         stat_btcu = [None] * steps_len
 
-        for ind in range(steps_len):
+        # no intervals if the value is undefined for all samples
+        for ind in range(steps_len if len(all_values) > 0 else 0):
             low = None
             high = None
             column = all_values_np[:, ind]
-- 
2.43.0


From bed8f543513e8a8464eb5b44b70a1949d9ab41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:49 +0000
Subject: [PATCH 46/98] fix: EMC significance of exactly -100 intervals was
 lost

---
 metcalcpy/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index f128f55..b9b9de7 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -413,7 +413,7 @@ class Scorecard:
                 derived_stat = -0.99
             elif ds999 <= -1 and ds999 > -100.0:
                 derived_stat = -1
-            elif ds999 < -100.0:
+            elif ds999 <= -100.0:
                 derived_stat = -1
         return derived_stat
 
-- 
2.43.0


From e870b7b036e39686c4d74d739938ec19ae82364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:49 +0000
Subject: [PATCH 47/98] fix: scorecard significance of a single case is missing
 instead of an exception

---
 metcalcpy/scorecard.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index b9b9de7..340cc2c 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -332,6 +332,9 @@ class Scorecard:
             Returns: the difference significance
 
         """
+        # the significance of one case is undefined
+        if len(ds_1_values) < 2:
+            return None
         # perform the derived operation
         derived_stat_list = calc_derived_curve_value(ds_1_values, ds_2_values, 'DIFF_SIG')
         avg = statistics.mean(derived_stat_list)
@@ -355,6 +358,9 @@ class Scorecard:
 
         """
         derived_stat = None
+        # the significance of one case is undefined
+        if len(ds_1_values) < 2:
+            return None
         values_1 = np.array(ds_1_values)
         values_2 = np.array(ds_2_values)
         val2_minus_val1 = np.subtract(values_2, values_1)
-- 
2.43.0


From 611cc059ab33706b981dc98a10a2444ffe70060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:17 +0000
Subject: [PATCH 48/98] fix: judge scorecard significance by the statistic of
 the derived series

---
 metcalcpy/scorecard.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index 340cc2c..b504b44 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -281,11 +281,12 @@ class Scorecard:
 
         # calculate derived statistic based on the operation and stat_flag
         derived_stat = None
+        stat_name = derived_curve_component.first_component[-1]
         if derived_curve_component.derived_operation == 'DIFF_SIG':
             if self.params['stat_flag'] == 'EMC':
-                derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2)
+                derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2, stat_name)
             else:
-                derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2)
+                derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2, stat_name)
 
         elif derived_curve_component.derived_operation == 'DIFF':
             # perform the derived operation
@@ -323,12 +324,13 @@ class Scorecard:
         df.at[0, 'model'] = derived_name
         return df
 
-    def _calculate_diff_sig_ncar(self, ds_1_values, ds_2_values) -> float:
+    def _calculate_diff_sig_ncar(self, ds_1_values, ds_2_values, stat_name) -> float:
         """ calculates the difference significance between two data arrays using p-value
 
             Args:
                     ds_1_values: list of floats
                     ds_2_values: list of floats
+                    stat_name: name of the statistic
             Returns: the difference significance
 
         """
@@ -344,16 +346,17 @@ class Scorecard:
         p_val = 1 - 2 * pt(abs(t), total - 1, lower_tail=False)
         derived_stat = perfect_score_adjustment(statistics.mean(ds_1_values),
                                                 statistics.mean(ds_2_values),
-                                                self.params['list_stat_1'][0],
+                                                stat_name,
                                                 p_val)
         return derived_stat
 
-    def _calculate_diff_sig_emc(self, ds_1_values, ds_2_values) -> float:
+    def _calculate_diff_sig_emc(self, ds_1_values, ds_2_values, stat_name) -> float:
         """ calculates the difference significance between two data arrays using EMC method
 
             Args:
                     ds_1_values: list of floats
                     ds_2_values: list of floats
+                    stat_name: name of the statistic
             Returns: the difference significance
 
         """
@@ -372,13 +375,13 @@ class Scorecard:
         intvl = round(1.960 * std / math.sqrt(nsz - 1), 6)
         mean1 = round(statistics.mean(values_1), 6)
         mean2 = round(statistics.mean(values_2), 6)
-        if self.params['list_stat_1'][0].startswith('ME') or self.params['list_stat_1'][0].startswith('BIAS'):
+        if stat_name.startswith('ME') or stat_name.startswith('BIAS'):
             ds = (abs(mean2 - mean1)) / intvl
             sss = abs(mean2) - abs(mean1)
             if sss is not None and sss < 0:
                 ds = (-1) * ds
-        elif self.params['list_stat_1'][0].startswith('RMSE') \
-                or self.params['list_stat_1'][0].startswith('RMSVE'):
+        elif stat_name.startswith('RMSE') \
+                or stat_name.startswith('RMSVE'):
             ds = (mean2 - mean1) / intvl
         else:
             ds = (mean1 - mean2) / intvl
-- 
2.43.0


From 811eecd70a4d83b030dbda4ae8871d993ad73e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:32 +0000
Subject: [PATCH 49/98] fix: lag-1 autocorrelation used the sum instead of its
 square in the slope

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 26062fd..eede5bb 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1396,4 +1396,4 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
-    return sx * sy / (sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
+    return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From 8d96d69e5627dae8ce2b8824bdd5807288614a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:32 +0000
Subject: [PATCH 50/98] fix: autocorrelation of values that are all the same
 but the last raised

---
 metcalcpy/util/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index eede5bb..11f9412 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1396,4 +1396,7 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
+    # the slope is undefined if all values but the last are the same
+    if sx * sx == (n - 1) * sxx or sxx == sx * sx / (n - 1):
+        return None
     return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From 5a98ce9bcffb69c3360fd1993430ba96164cfde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:32 +0000
Subject: [PATCH 51/98] fix: missing values made standard errors missing or
 raise

---
 metcalcpy/util/utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 11f9412..64c833b 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -876,10 +876,9 @@ def compute_std_err_from_mean(data):
     Returns: Standard Error, variance inflation factor flag, AR1 coefficient, the length of data
     """
     ratio_flag = 0
-    variance = st.variance(data)
-
-    number_of_none = sum(x is None for x in data)
-    if variance > 0.0 and (len(data) - number_of_none) > 2:
+    data = [x for x in data if x is not None and not np.isnan(x)]
+    if len(data) > 2 and st.variance(data) > 0.0:
+        variance = st.variance(data)
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
 
@@ -955,7 +954,7 @@ def compute_std_err_from_median_variance_inflation_factor(data):
         # using a vector that is the same size as "data", but represents
         # represents excusions from the median of the data.
 
-        ar_1 = autocor_coef(data)
+        ar_1 = autocor_coef(data_without_non)
 
         # Compute an variance inflation factor
         # (having removed that portion of the time series that was correlated).
@@ -973,13 +972,13 @@ def compute_std_err_from_median_variance_inflation_factor(data):
             variance_inflation_factor = 1.0
 
         # Compute the Standard Error using the variance inflation factor.
-        iqr = stats.iqr(data, interpolation='linear')
-        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) / (1.349 * math.sqrt(len(data)))
+        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) \
+                  / (1.349 * math.sqrt(len(data_without_non)))
 
     else:
         std_err = 0.0
         ar_1 = 0
-    return std_err, ratio_flag, ar_1, len(data)
+    return std_err, ratio_flag, ar_1, len(data_without_non)
 
 
 def compute_std_err_from_sum(data):
@@ -994,7 +993,7 @@ def compute_std_err_from_sum(data):
     std_err = compute_std_err_from_mean(data)
 
     # multiply Standard Error by data size
-    return std_err[0] * len(data), std_err[1], std_err[2], std_err[3]
+    return std_err[0] * std_err[3], std_err[1], std_err[2], std_err[3]
 
 
 def convert_lon_360_to_180(longitude):
-- 
2.43.0


From 5c74948b3a9fb665fad8c51df6171bc2b33d7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:32 +0000
Subject: [PATCH 52/98] fix: standard error of linear or otherwise degenerate
 series raised

---
 metcalcpy/util/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 64c833b..4d2b0b1 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -884,7 +884,10 @@ def compute_std_err_from_mean(data):
 
         # Compute a variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        # An undefined coefficient means no correlation; 1 is not inflated below.
+        if ar_1 is None:
+            ar_1 = 0.0
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else 1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         # If necessary, try a different arima method, or just set RATIO to one.
@@ -958,7 +961,10 @@ def compute_std_err_from_median_variance_inflation_factor(data):
 
         # Compute an variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        # An undefined coefficient means no correlation; 1 is not inflated below.
+        if ar_1 is None:
+            ar_1 = 0.0
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else 1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         if ratio < 0.0:
-- 
2.43.0


From d7ba08b2b221820c198062e682619388f4f263b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:32 +0000
Subject: [PATCH 53/98] fix: equivalence test of perfectly correlated groups
 raised

---
 metcalcpy/util/correlation.py | 2 +-
 metcalcpy/util/utils.py       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index 5f002b7..4e3ac01 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -250,7 +250,7 @@ def corr(x, y, tail='two-sided', method='pearson', **kwargs):
 
     # Compute r2 and adj_r2
     r2 = r ** 2
-    adj_r2 = 1 - (((1 - r2) * (nx - 1)) / (nx - 3))
+    adj_r2 = 1 - (((1 - r2) * (nx - 1)) / (nx - 3)) if nx != 3 else np.nan
 
     # Compute the parametric 95% confidence interval and power
     ci = compute_esci(stat=r, nx=nx, ny=nx, eftype='r', decimals=6)
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 4d2b0b1..a8ad986 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1211,7 +1211,8 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
         print("The correlation should be a value between -1 and 1.")
         sys.exit()
 
-    sdif = math.sqrt(sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2)
+    # rounding can make the variance of perfectly correlated groups negative
+    sdif = math.sqrt(max(sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2, 0))
     low_eqbound = low_eqbound_dz * sdif
     high_eqbound = high_eqbound_dz * sdif
     se = sdif / math.sqrt(n)
-- 
2.43.0


From 7095a40f7d653088be8bf486d8f8d656ff80af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:32 +0000
Subject: [PATCH 54/98] fix: equivalence test outcome was lost for p-values of
 0

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index a8ad986..9933808 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1243,7 +1243,7 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest and ptost:
+    if pttest is not None and ptost is not None:
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-- 
2.43.0


From 662e799541bc259f63c397d76d8c0572e479203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:32 +0000
Subject: [PATCH 55/98] fix: equivalence test raised for a p-value equal to
 alpha

---
 metcalcpy/util/tost_paired.py | 2 +-
 metcalcpy/util/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/tost_paired.py b/metcalcpy/util/tost_paired.py
index 5de53e2..707afb0 100644
--- a/metcalcpy/util/tost_paired.py
+++ b/metcalcpy/util/tost_paired.py
@@ -146,7 +146,7 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     if pttest <= alpha and ptost <= alpha:
         combined_outcome = 'diff_eqv'
 
-    if pttest < alpha and ptost > alpha:
+    if pttest <= alpha and ptost > alpha:
         combined_outcome = 'diff_no_eqv'
 
     if pttest > alpha and ptost <= alpha:
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 9933808..7faffde 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1247,7 +1247,7 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-        if pttest < alpha and ptost > alpha:
+        if pttest <= alpha and ptost > alpha:
             combined_outcome = 'diff_no_eqv'
 
         if pttest > alpha and ptost <= alpha:
-- 
2.43.0


From 84b18d6cbaa586cf062ed2d5e3dbf03fdccba43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:32 +0000
Subject: [PATCH 56/98] fix: equivalence test of a single case or constant
 group stopped the tool

---
 metcalcpy/util/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 7faffde..d2a8c41 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -170,6 +170,9 @@ def calc_derived_curve_value(val1, val2, operation):
     elif operation == 'SINGLE':
         result_val = val1
     elif operation == 'ETB':
+        # the test is undefined for one case or for a group without spread
+        if len(val1) < 2 or st.stdev(val1) == 0 or st.stdev(val2) == 0:
+            return None
         corr_val = corr(x=val1, y=val2)['r'].tolist()[0]
         result_val = tost_paired(len(val1),
                                  st.mean(val1),
-- 
2.43.0


From 55a3062614b1f4bb827df33a27893bff3319c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:32 +0000
Subject: [PATCH 57/98] fix: equivalence testing curve raised KeyError in
 AggStat

---
 metcalcpy/agg_stat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index c6fe70d..f4af84f 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -720,7 +720,12 @@ class AggStat:
                 ds_1_value,
                 ds_2_value,
                 derived_curve_component.derived_operation)
-            if stat_val is not None:
+            if stat_val is not None and derived_curve_component.derived_operation == 'ETB':
+                # the mean difference with its TOST interval
+                results = BootstrapResults(lower_bound=round_half_up(stat_val['ci_tost'][0], 5),
+                                           value=round_half_up(stat_val['dif'], 5),
+                                           upper_bound=round_half_up(stat_val['ci_tost'][1], 5))
+            elif stat_val is not None:
                 results = BootstrapResults(lower_bound=None,
                                        value=round_half_up(stat_val[0], 5),
                                        upper_bound=None)
-- 
2.43.0


From 890641d65d4196ac32a9d5338cda599765040655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:56 +0000
Subject: [PATCH 58/98] fix: equivalence testing curve used sums weighted by
 the number of pairs as case values

---
 metcalcpy/agg_stat.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index f4af84f..f080ca3 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -702,12 +702,11 @@ class AggStat:
 
             if derived_curve_component.derived_operation == 'ETB':
                 index_array = np.where(self.column_names == 'stat_value')[0]
-                func_name = f'calculate_{self.statistic}'
                 for row in ds_1.values:
-                    stat = [globals()[func_name](row[np.newaxis, ...], self.column_names)]
+                    stat = self._calc_stats(row[np.newaxis, ...])
                     row[index_array] = stat
                 for row in ds_2.values:
-                    stat = [globals()[func_name](row[np.newaxis, ...], self.column_names)]
+                    stat = self._calc_stats(row[np.newaxis, ...])
                     row[index_array] = stat
 
                 ds_1_value = ds_1.values[:, index_array].flatten().tolist()
-- 
2.43.0


From edcaa9b899e4e1343291c2243acbb78bc5a585a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:39 +0000
Subject: [PATCH 59/98] fix: autocorrelation of constant or completely missing
 values raised

---
 metcalcpy/util/correlation.py | 7 +++++++
 metcalcpy/util/utils.py       | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index 4e3ac01..c7f84c3 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -310,6 +310,10 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     acf_result = []
     size = np.size(x)
 
+    # without any value there is nothing to estimate
+    if len(remove_none(x)) == 0:
+        return None
+
     # calculate mean of the array excluding None
     mean_val = mean(remove_none(x))
 
@@ -319,6 +323,9 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     lag_max = int(min(lag_max, size - 1))
 
     cov_0 = autocovariance(x, size, 0, mean_val)
+    # the correlation of values without spread is undefined
+    if acf_type == 'correlation' and cov_0 == 0:
+        return None
     for i in range(lag_max+1):
         cov = autocovariance(x, size, i, mean_val)
         if acf_type == 'covariance':
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index d2a8c41..2828526 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1328,6 +1328,8 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
         data_for_stats.extend([None])
 
     data_for_stats.pop()
+    if len(remove_none(data_for_stats)) == 0:
+        return result
 
     # subtract mean from each value
     mean_val = st.mean(remove_none(data_for_stats))
-- 
2.43.0


From e003467bc66d8488490152f36370cacee7c3aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:39 +0000
Subject: [PATCH 60/98] fix: name of the mean value in an empty runs test
 result

---
 metcalcpy/util/wald_wolfowitz_runs_test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/wald_wolfowitz_runs_test.py b/metcalcpy/util/wald_wolfowitz_runs_test.py
index 73c4a98..4c19b0f 100644
--- a/metcalcpy/util/wald_wolfowitz_runs_test.py
+++ b/metcalcpy/util/wald_wolfowitz_runs_test.py
@@ -42,7 +42,7 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         'statistic': None,
         'p_value': None,
         'runs': None,
-        'mean_value ': None,
+        'mean_value': None,
         'variance': None
     }
     if alternative != "two.sided" and alternative != "left.sided" and alternative != "right.sided":
-- 
2.43.0


From cf6013d7c599c0cd764cfea1faef2cbf46de49a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:39 +0000
Subject: [PATCH 61/98] fix: runs test of values without spread raised

---
 metcalcpy/util/wald_wolfowitz_runs_test.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/wald_wolfowitz_runs_test.py b/metcalcpy/util/wald_wolfowitz_runs_test.py
index 4c19b0f..cff87d9 100644
--- a/metcalcpy/util/wald_wolfowitz_runs_test.py
+++ b/metcalcpy/util/wald_wolfowitz_runs_test.py
@@ -48,10 +48,10 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
     if alternative != "two.sided" and alternative != "left.sided" and alternative != "right.sided":
         print(" runs_test must get a valid alternative")
         return result
+    x = remove_none(x)
     if len(x) == 0:
         return result
 
-    x = remove_none(x)
     if threshold == 'median':
         x_threshold = median(x)
     elif threshold == "mean":
@@ -78,9 +78,17 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         elif run[0] == -1:
             r2 += 1
     n = n1 + n2
+    # the test is undefined for fewer than two values that differ from the threshold
+    if n < 2:
+        return result
     mean_value = 1 + 2 * n1 * n2 / (n1 + n2)
     variance = 2 * n1 * n2 * (2 * n1 * n2 - n1 - n2) / (n * n * (n - 1))
     rr = r1 + r2
+    result['runs'] = rr
+    result['mean_value'] = mean_value
+    result['variance'] = variance
+    if variance == 0:
+        return result
     pv = 0
     pv0 = norm.cdf((rr - mean_value) / math.sqrt(variance))
     if alternative == "two.sided":
@@ -92,8 +100,5 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
 
     result['statistic'] = (rr - mean_value) / math.sqrt(variance)
     result['p_value'] = pv
-    result['runs'] = rr
-    result['mean_value'] = mean_value
-    result['variance'] = variance
 
     return result
-- 
2.43.0


From e79d458ee1802d97d26e7337614330b64cdcbbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:59 +0000
Subject: [PATCH 62/98] fix: vertical interpolation lost the weight of the top
 layer below it

---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 8cbba86..a8b5581 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -201,7 +201,8 @@ def vertical_interp(fieldname, config,
         # where top most layer is below eta
         layer_below = below.loc[{lev_dim: vertical_coord[nlev - 1]}]
         weights.loc[{lev_dim: vertical_coord[nlev - 1]}] \
-            = xr.where(layer_below, 1, 0)
+            = xr.where(layer_below, 1,
+                       weights.loc[{lev_dim: vertical_coord[nlev - 1]}])
 
         """
         Compute weighted sum
-- 
2.43.0


From d81feb67ac1d9f018fde37f51f2b0a800a50aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:59 +0000
Subject: [PATCH 63/98] fix: vertical interpolation onto a level that coincides
 with a surface was missing

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index a8b5581..e17c62d 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -167,7 +167,7 @@ def vertical_interp(fieldname, config,
 
         distances = eta - length_convert * coordinate_surfaces
         above = distances < 0
-        below = distances > 0
+        below = distances >= 0
 
         """
         Compute weights for linear interpolation
-- 
2.43.0


From 6cb1dca71d4bc7115d9578ae4e927c14670eac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:59 +0000
Subject: [PATCH 64/98] fix: vertical interpolation converted the units of the
 surfaces the wrong way round

---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index e17c62d..fa17fc2 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -146,8 +146,8 @@ def vertical_interp(fieldname, config,
     try:
         logging.debug(coordinate_surfaces.attrs['units'])
         logging.debug(config['vertical_level_units'])
-        length_convert = float((ureg.Quantity(1, config['vertical_level_units'])
-                       / ureg.Quantity(1, coordinate_surfaces.attrs['units'])).to_base_units())
+        length_convert = float((ureg.Quantity(1, coordinate_surfaces.attrs['units'])
+                       / ureg.Quantity(1, config['vertical_level_units'])).to_base_units())
     except pint.errors.UndefinedUnitError:
         logging.warning('Unknown unit:' + coordinate_surfaces.attrs['units'])
         length_convert = 1
-- 
2.43.0


From 26685c29d2ec9c62ac733a0efd327e21bddd4b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:04 +0000
Subject: [PATCH 65/98] fix: height of the lowest level above the surface
 included the layer below the surface

---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index fa17fc2..61ca015 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -376,7 +376,8 @@ def height_from_pressure(config,
         layer_thickness.loc[{lev_dim:pressure_coord[k]}] \
             = gas_constant_gravity_ratio \
             * virtual_temperature.loc[{lev_dim: pressure_coord[k]}] \
-            * np.log(pressure.loc[{lev_dim: pressure_coord[k - 1]}] \
+            * np.log(np.minimum(pressure.loc[{lev_dim: pressure_coord[k - 1]}],
+                                pressure_convert * surface_pressure) \
             / pressure.loc[{lev_dim: pressure_coord[k]}])
 
     layer_thickness = layer_thickness.fillna(0)
-- 
2.43.0


From 3621457af755bb3c12c3ca2096f9c0d321dc37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:04 +0000
Subject: [PATCH 66/98] fix: heights were missing where the surface pressure
 equals a pressure level

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 61ca015..cef5aa6 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -401,7 +401,7 @@ def height_from_pressure(config,
         surface_mask.loc[{lev_dim: pressure_coord[k]}] \
             = np.logical_and(
             pressure.loc[{lev_dim: pressure_coord[k - 1]}]
-            > pressure_convert * surface_pressure,
+            >= pressure_convert * surface_pressure,
             pressure.loc[{lev_dim: pressure_coord[k]}]
             < pressure_convert * surface_pressure)
 
-- 
2.43.0


From 5d2359f4595c9e5eaaafb9f3e9d5bf4c3336adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:18 +0000
Subject: [PATCH 67/98] fix: piecewise linear function accepted unsorted knots

---
 metcalcpy/piecewise_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/piecewise_linear.py b/metcalcpy/piecewise_linear.py
index 5fd31be..c068533 100644
--- a/metcalcpy/piecewise_linear.py
+++ b/metcalcpy/piecewise_linear.py
@@ -40,7 +40,7 @@ class PiecewiseLinear():
         len_x = len(x_domain)
         if len_x < 2:
             raise IncompatibleLengths('Length of xdomain must be at least 2.')
-        if np.any(np.diff(x_domain)) < 0:
+        if np.any(np.diff(x_domain) < 0):
             print("X_domain (in {}) is {}".format(xunits, x_domain))
             raise UnsortedArray('Xdomain must be sorted in ascending order.')
         len_y = len(y_range)
-- 
2.43.0


From d2c39b6f7c7d433ed2e656a5d2f7d0e3d2638f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:18 +0000
Subject: [PATCH 68/98] fix: difficulty index accepted negative standard
 deviations

---
 metcalcpy/calc_difficulty_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/calc_difficulty_index.py b/metcalcpy/calc_difficulty_index.py
index 5e6de79..b903a64 100644
--- a/metcalcpy/calc_difficulty_index.py
+++ b/metcalcpy/calc_difficulty_index.py
@@ -57,7 +57,7 @@ def _input_check(sigmaij, muij, threshold, fieldijn, sigma_over_mu_ref, under_fa
     """
     assert isinstance(threshold, (int, float, np.int32, np.float32))
     assert np.ndim(sigmaij) == FIELD_DIM
-    assert np.all(sigmaij) >= EPS
+    assert not np.any(sigmaij < EPS)
     fieldshape = np.shape(fieldijn)
     # muij is a scalar or 2D array
     if isinstance(muij, np.ndarray):
-- 
2.43.0


From 617d2065e57d45e036670143d3a796d584f88960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:04 +0000
Subject: [PATCH 69/98] fix: flipping longitudes overwrote them while they were
 still read

---
 metcalcpy/contributed/spacetime/spacetime_utils.py  | 2 +-
 metcalcpy/contributed/tropical_diagnostics/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index accce20..430d65b 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -69,7 +69,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 048a66a..55eb85c 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -67,7 +67,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
-- 
2.43.0


From d11b4385d8adf143e3bf38566d86d885d4931728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:04 +0000
Subject: [PATCH 70/98] fix: flipping longitudes shifted the data by the wrong
 number of points

---
 metcalcpy/contributed/spacetime/spacetime_utils.py  | 4 ++--
 metcalcpy/contributed/tropical_diagnostics/utils.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index 430d65b..405013e 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -81,7 +81,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
+        dataflip = xr.DataArray(np.roll(data, -nlonneg, axis=2),
              dims=data.dims,
              coords={'time': data['time'], 'lat': data['lat'],
                      'lon': lonnew})
@@ -96,7 +96,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
+        dataflip = xr.DataArray(np.roll(data, -nlonpos, axis=2),
             dims=data.dims,
             coords={'time': data['time'],
             'lat': data['lat'], 'lon': lonnew})
diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 55eb85c..a818966 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -79,7 +79,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, -nlonneg, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     else:
@@ -92,7 +92,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, -nlonpos, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     return dataflip
-- 
2.43.0


From 035a7de4f74eb57da6b931828fc529ec26e70877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:04 +0000
Subject: [PATCH 71/98] fix: longitudes with a positive starting value were
 converted to start at its negative

---
 metcalcpy/util/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 2828526..c0864c2 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1045,11 +1045,9 @@ def convert_lons_indices(lons_in, minlon_in, range_in):
       lonsortlocs:  sorted array indices
     '''
 
-    minlon = abs(minlon_in)
-
     # Use formula to convert longitude values based on the starting lon value and
     # the target number of longitudes
-    newlons = np.mod((lons_in + minlon), range_in) - minlon
+    newlons = np.mod((lons_in - minlon_in), range_in) + minlon_in
 
     # get the sorted array indices
     lonsortlocs = np.argsort(newlons)
-- 
2.43.0


From d6ad6a60ce11d8a2ef52b6aa3a597a102d88fffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:04 +0000
Subject: [PATCH 72/98] fix: meridional mean ignored the requested latitudes

---
 metcalcpy/pre_processing/directional_means.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/directional_means.py b/metcalcpy/pre_processing/directional_means.py
index 1db3c88..579e03e 100644
--- a/metcalcpy/pre_processing/directional_means.py
+++ b/metcalcpy/pre_processing/directional_means.py
@@ -57,6 +57,6 @@ def meridional_mean(dat, lat1, lat2, dimvar='latitude'):
     elif lat1 == lat2:
         raise ValueError('lat1 is equal to lat2, but it must be less than lat2')
 
-    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True)))
+    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True)))
 
-    return dat.where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True).weighted(wgts).mean(dimvar)
+    return dat.where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True).weighted(wgts).mean(dimvar)
-- 
2.43.0


From f64eeceb9a0e0c681d4748b91dfeb4d888a11859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:58 +0000
Subject: [PATCH 73/98] fix: converting a list of longitudes raised

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c0864c2..8e2c8a2 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1047,7 +1047,7 @@ def convert_lons_indices(lons_in, minlon_in, range_in):
 
     # Use formula to convert longitude values based on the starting lon value and
     # the target number of longitudes
-    newlons = np.mod((lons_in - minlon_in), range_in) + minlon_in
+    newlons = np.mod((np.asarray(lons_in) - minlon_in), range_in) + minlon_in
 
     # get the sorted array indices
     lonsortlocs = np.argsort(newlons)
-- 
2.43.0


From d8235820b62f256e96bf69b3e7ab4482f4d0548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:09 +0000
Subject: [PATCH 74/98] fix: ROC points were ordered by the text of the
 thresholds

---
 metcalcpy/util/ctc_statistics.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 7a19a0f..fb0f0eb 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -209,13 +209,8 @@ def calculate_ctc_roc(data, ascending):
     """
     # create a data frame to hold the aggregated contingency table and ROC data
     sorted_data = sort_by_thresh(data, ascending=ascending)
-    list_thresh = np.sort(np.unique(sorted_data['fcst_thresh'].to_numpy()))
-
-    # If descending order was requested for sorting the input dataframe,
-    # reverse the order of the list_thresh to
-    # maintain results in descending order.
-    if not ascending:
-        list_thresh = list_thresh[::-1]
+    # the unique values keep the (ascending or descending) order of the sorted data
+    list_thresh = sorted_data['fcst_thresh'].unique()
 
     df_roc = pd.DataFrame(
         {'thresh': list_thresh, 'pody': None, 'pofd': None})
-- 
2.43.0


From 599e784bc881f5a85385cd7b843f85712b3a5227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:15 +0000
Subject: [PATCH 75/98] fix: text thresholds with <= were sorted as <

---
 metcalcpy/util/ctc_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index fb0f0eb..14ceec6 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -1027,7 +1027,7 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
         # separate the fcst_thresh into two parts: the operator (ie <, <=, ==, >=, >)
         # and the numerical value of the threshold (which can be a negative value)
         match = re.match(r'(\<|\<=|\==|\>=|\>)*((-)*([0-9])(.)*)', thresh)
-        match_text = re.match(r'(\<|\<=|\==|\>=|\>)*((.)*)', thresh)
+        match_text = re.match(r'(\<=|\<|\==|\>=|\>)*((.)*)', thresh)
 
         if match:
             operators.append(match.group(1))
-- 
2.43.0


From bd7999dff30d13551db216a2a2349265b826cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:34 +0000
Subject: [PATCH 76/98] fix: 1-2-1 smoothing marked the first value missing
 instead of the missing ones

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8e82c25..8379c06 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -329,7 +329,7 @@ def smooth121_1D(array_in):
 
     for i in np.arange(0, len(temp), 1):
         if np.isnan(temp[i]):
-            array_out[0] = np.nan
+            array_out[i] = np.nan
         elif i == 0 or np.isnan(temp[i-1]):
             array_out[i] = (3*temp[i]+temp[i+1])/4
         elif i == (len(temp)-1) or np.isnan(temp[i+1]):
-- 
2.43.0


From 4757206dbfa7f8997f935e24c723b51a099906e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:34 +0000
Subject: [PATCH 77/98] fix: 1-2-1 smoothing of a value without neighbours
 raised or lost it

---
 metcalcpy/contributed/spacetime/spacetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8379c06..74935d3 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -330,6 +330,9 @@ def smooth121_1D(array_in):
     for i in np.arange(0, len(temp), 1):
         if np.isnan(temp[i]):
             array_out[i] = np.nan
+        elif (i == 0 or np.isnan(temp[i-1])) and (i == (len(temp)-1) or np.isnan(temp[i+1])):
+            # no neighbours to smooth with
+            array_out[i] = temp[i]
         elif i == 0 or np.isnan(temp[i-1]):
             array_out[i] = (3*temp[i]+temp[i+1])/4
         elif i == (len(temp)-1) or np.isnan(temp[i+1]):
-- 
2.43.0


From 90be897245df4d657a8bf6542946acfb23efab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:00 +0000
Subject: [PATCH 78/98] fix: MJO indices accepted fields on another grid than
 the EOFs

Comparing two coordinates keeps only the values they share, so the
comparison held whatever the grids were.
---
 .../contributed/rmm_omi/compute_mjo_indices.py     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 83a337a..3f76b18 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -37,13 +37,13 @@ def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
     # test that the input data has the same longitude values as the EOFs
     eoflon = EOF1['lon']
     lon = olr['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u850['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U850 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u200['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U200 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # remove previous 120 day mean from data
@@ -111,9 +111,9 @@ def omi(olr, time, spd, EOF1, EOF2):
     lon = olr['lon']
     eoflat = EOF1['lat']
     lat = olr['lat']
-    if not np.all(lat == eoflat):
+    if not np.array_equal(lat, eoflat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal. Latitudes should be -20 to 20 by 2.5 degrees.")
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal. Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # filter OLR for 20-96 days
@@ -147,9 +147,9 @@ def regress_3dim_data_onto_eofs(data, time, EOF1, EOF2):
     :param EOF2: the day of year dependent EOF2
     :return: PCs
     """
-    if not np.all(data.lat == EOF1.lat):
+    if not np.array_equal(data.lat, EOF1.lat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal.")
-    if not np.all(data.lon == EOF1.lon):
+    if not np.array_equal(data.lon, EOF1.lon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.")
     pc1 = np.empty(data.time.size)
     pc2 = np.empty(data.time.size)
-- 
2.43.0


From 6fa81009f1ed385798ba5852b8468f5f9f0bf1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:55 +0000
Subject: [PATCH 79/98] fix: groups of blocked longitudes across the first
 longitude were dropped

Longitudes are listed twice to find groups that continue from the last
longitude to the first. Such a group appears once in the list, other
groups twice, but half of the list had to reach the minimum size.
The size of each group is already required when it is added.
---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6399c7f..b0c3446 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -170,8 +170,6 @@ class BlockingCalculation():
                             ct=1
                         ct = 1
                         btlon = block[ll]
-                if len(btfin)/2 < crit :
-                    btfin = []
                 if len(btfin)==0:
                     continue
                 gibl1 = btfin
-- 
2.43.0


From 6bb60aabc84eb8d3d7e5d064c38a8f30ac3e15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:51 +0000
Subject: [PATCH 80/98] fix: wave phases lost their dimensions and coordinates

numpy.angle returns a plain array, the documentation promises a DataArray.
---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index d75cc3f..66c552e 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -155,7 +155,7 @@ def zonal_wave_ampl_phase(dat, dimvar='longitude', waves=None, phase_deg=False,
     mult_mask = np.isfinite(fc.where(fc.lon_wavenum != 0)) + 1
 
     ampl = mult_mask*np.abs(fc) / fc.nlons
-    phas = np.angle(fc, deg=phase_deg)
+    phas = ampl.copy(data=np.angle(fc, deg=phase_deg))
 
     return (ampl.astype(dat.dtype), phas.astype(dat.dtype))
 
-- 
2.43.0


From 850f4e2de553941b9e0a9521ad2a3f2dd4794518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:51 +0000
Subject: [PATCH 81/98] fix: contributions of selected waves raised

The inverse transform was given the coefficients of the selected waves
only, so its size did not match the longitudes.
---
 metcalcpy/pre_processing/waves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 66c552e..acc93bc 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -183,7 +183,8 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
     --------
     zonal_wave_coeffs
     """
-    fc = zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)
+    # the inverse transform needs the coefficients of every wave
+    fc = zonal_wave_coeffs(dat, dimvar, fftpkg=fftpkg)
 
     if (waves is None):
         waves = fc.lon_wavenum.values
-- 
2.43.0


From be0eafb1382814b1e0a683c91cf84d2e40624272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:51 +0000
Subject: [PATCH 82/98] fix: wave contributions raised for an odd number of
 longitudes

---
 metcalcpy/pre_processing/waves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index acc93bc..236fb5e 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -199,7 +199,8 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         for k in waves:
             mask = np.isnan(fc.where(fc.lon_wavenum != k))
 
-            kcont = scipy.fft.irfft((fc*mask).values, axis=fc.get_axis_num('lon_wavenum'))
+            kcont = scipy.fft.irfft((fc*mask).values, n=fc.nlons,
+                                    axis=fc.get_axis_num('lon_wavenum'))
             recons.append(kcont[..., np.newaxis])
 
         recons = np.concatenate(recons, axis=-1)
-- 
2.43.0


From 06285c63410d7d12fe7da85489bf83e8cb01f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:51 +0000
Subject: [PATCH 83/98] fix: covariance of waves raised on an undefined name

---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 236fb5e..e19d504 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -253,7 +253,7 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     * Check for consistency between dat1 and dat2 and throw errors
     """
 
-    nlons = dat1[dimvar].size
+    nlons = dat1[dimvar1].size
 
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
-- 
2.43.0


From 3ef9c575cd5905417bb1760a8c6f376c44c20b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:49 +0000
Subject: [PATCH 84/98] Revert "fix: runs test of values without spread raised"

This reverts commit cf6013d7c599c0cd764cfea1faef2cbf46de49a7.
---
 metcalcpy/util/wald_wolfowitz_runs_test.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/metcalcpy/util/wald_wolfowitz_runs_test.py b/metcalcpy/util/wald_wolfowitz_runs_test.py
index cff87d9..4c19b0f 100644
--- a/metcalcpy/util/wald_wolfowitz_runs_test.py
+++ b/metcalcpy/util/wald_wolfowitz_runs_test.py
@@ -48,10 +48,10 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
     if alternative != "two.sided" and alternative != "left.sided" and alternative != "right.sided":
         print(" runs_test must get a valid alternative")
         return result
-    x = remove_none(x)
     if len(x) == 0:
         return result
 
+    x = remove_none(x)
     if threshold == 'median':
         x_threshold = median(x)
     elif threshold == "mean":
@@ -78,17 +78,9 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         elif run[0] == -1:
             r2 += 1
     n = n1 + n2
-    # the test is undefined for fewer than two values that differ from the threshold
-    if n < 2:
-        return result
     mean_value = 1 + 2 * n1 * n2 / (n1 + n2)
     variance = 2 * n1 * n2 * (2 * n1 * n2 - n1 - n2) / (n * n * (n - 1))
     rr = r1 + r2
-    result['runs'] = rr
-    result['mean_value'] = mean_value
-    result['variance'] = variance
-    if variance == 0:
-        return result
     pv = 0
     pv0 = norm.cdf((rr - mean_value) / math.sqrt(variance))
     if alternative == "two.sided":
@@ -100,5 +92,8 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
 
     result['statistic'] = (rr - mean_value) / math.sqrt(variance)
     result['p_value'] = pv
+    result['runs'] = rr
+    result['mean_value'] = mean_value
+    result['variance'] = variance
 
     return result
-- 
2.43.0


From 8429f5abb73a993292be2568032e001a547b8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:49 +0000
Subject: [PATCH 85/98] Revert "fix: name of the mean value in an empty runs
 test result"

This reverts commit e003467bc66d8488490152f36370cacee7c3aab1.
---
 metcalcpy/util/wald_wolfowitz_runs_test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/wald_wolfowitz_runs_test.py b/metcalcpy/util/wald_wolfowitz_runs_test.py
index 4c19b0f..73c4a98 100644
--- a/metcalcpy/util/wald_wolfowitz_runs_test.py
+++ b/metcalcpy/util/wald_wolfowitz_runs_test.py
@@ -42,7 +42,7 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         'statistic': None,
         'p_value': None,
         'runs': None,
-        'mean_value': None,
+        'mean_value ': None,
         'variance': None
     }
     if alternative != "two.sided" and alternative != "left.sided" and alternative != "right.sided":
-- 
2.43.0


From bdd0e5edeab8f4d877d9408a3924682383191388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:29 +0000
Subject: [PATCH 86/98] fix: revision statistics of values without spread
 raised

---
 metcalcpy/util/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 8e2c8a2..b9344e2 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1346,7 +1346,11 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
     # qnorm((1 + 0.05)/2) = 0.06270678
     result['auto_cor_p'] = round(0.06270678 / math.sqrt(np.size(data_for_stats)), 2)
 
-    p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    try:
+        p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    except ZeroDivisionError:
+        # the test is undefined for values without spread
+        p_value = None
     if p_value is not None:
         result['ww_run'] = round(p_value, 2)
 
-- 
2.43.0


From 009528b0a62fdfe2d974740876cfeaada92b9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:09 +0000
Subject: [PATCH 87/98] fix: spectra other than the first missed the last
 frequency for even sizes

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 74935d3..2c6f225 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -121,7 +121,7 @@ def mjo_cross_segment(XX, YY, opt=False):
             STC[1, :NT, 1:NL + 1] = PY
             STC[2, :NT, 1:NL + 1] = CXY
             STC[3, :NT, 1:NL + 1] = QXY
-            STC[0, NT, :] = STC[0, 0, :]
+            STC[:, NT, :] = STC[:, 0, :]
             STC[:, :, 0] = STC[:, :, NL]
 
     return STC
-- 
2.43.0


From fd09dbed061d3e1c6efe199fd8295a1a6dce4948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:09 +0000
Subject: [PATCH 88/98] fix: cross-spectra of segments not divisible by 4 had
 wrong frequencies or raised

---
 metcalcpy/contributed/spacetime/spacetime.py | 71 +++++++-------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 2c6f225..4757817 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -172,46 +172,25 @@ def mjo_cross_segment_realfft(XX, YY, opt=False):
     CXY = CXY[:, ::-1]
     QXY = QXY[:, ::-1]
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    NT = int(NT / 2) + 1
-    if NT % 2 == 1:
-        nfreq = NT
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, :, 0] = STC[:, :, NL]
+    # test if longitude is odd or even, fft algorithm
+    # returns the Nyquist wavenumber once for even NL and twice
+    # if it is odd. The real fft returns the frequencies from 0 up only.
+    nfreq = int(NT / 2) + 1
+    if NL % 2 == 1:
+        nwave = NL
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :, :NL] = PX
+        STC[1, :, :NL] = PY
+        STC[2, :, :NL] = CXY
+        STC[3, :, :NL] = QXY
     else:
-        nfreq = NT + 1
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-            STC[:, :, 0] = STC[:, :, NL]
+        nwave = NL + 1
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :, 1:NL + 1] = PX
+        STC[1, :, 1:NL + 1] = PY
+        STC[2, :, 1:NL + 1] = CXY
+        STC[3, :, 1:NL + 1] = QXY
+        STC[:, :, 0] = STC[:, :, NL]
 
     return STC
 
@@ -403,13 +382,11 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     window = np.transpose(window)
     window = np.tile(window, [1, nlat, mlon])
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    if (segLen/2+1) % 2 == 1:
-        nfreq = int(segLen/2) + 1
-    else:
-        nfreq = int(segLen/2) + 2
+    # the real fft returns the frequencies from 0 to the highest one
+    nfreq = int(segLen/2) + 1
+    # test if longitude is odd or even, fft algorithm
+    # returns the Nyquist wavenumber once for even NL and twice
+    # if it is odd
     if mlon % 2 == 1:
         nwave = mlon
     else:
@@ -418,7 +395,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     # initialize spectrum array
     STC = np.zeros([8, nfreq, nwave], dtype='double')
     wave = np.arange(-int(nwave / 2), int(nwave / 2) + 1, 1.)
-    freq = np.linspace(0, 0.5, num=nfreq)
+    freq = np.arange(nfreq) / segLen
 
     # find time-mean index
     indfreq0 = np.where(freq == 0.)[0]
-- 
2.43.0


From 094ea2504b2daaf975bda265f862c55b1628bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:09 +0000
Subject: [PATCH 89/98] fix: cross-spectra ignored a segment ending at the last
 time

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 4757817..e096f16 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -406,7 +406,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     switch = True
     while switch:
         ntLast = ntStrt + segLen
-        if (ntLast > (ntim - 1)):
+        if (ntLast > ntim):
             switch = False
             continue
 
-- 
2.43.0


From b52246e3701457ce2e0873b6c9b3282ac097c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:21 +0000
Subject: [PATCH 90/98] fix: pool group members of numeric fields in
 aggregate_field_values

---
 metcalcpy/util/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index b9344e2..fef21d2 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -484,6 +484,12 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
             if ';' in series_val:
                 # found the aggregated field
                 single_values = series_val.split(';')
+                # numeric columns hold numbers
+                for val in series_val.split(';'):
+                    if is_string_integer(val):
+                        single_values.append(int(val))
+                    elif is_string_strictly_float(val):
+                        single_values.append(float(val))
 
                 # for each valid
                 for valid in unique_valid:
@@ -525,7 +531,7 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                         # the single_values to int type so the pd.isin() properly matches
                         # the input_data_frame[series_var].
                         single_values_int = []
-                        for val in single_values:
+                        for val in series_val.split(';'):
                             if val != '':
                                 single_values_int.append((int(val)))
 
-- 
2.43.0


From 43c1a04251f1247e8887193e793af54bd04c0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:06 +0000
Subject: [PATCH 91/98] fix: aggregate each point of a summary by its own
 groups only

---
 metcalcpy/sum_stat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index efbbd8a..17b98ba 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -229,16 +229,16 @@ class SumStat:
                         point_data = \
                             point_data[point_data[series_vars[index]].isin(actual_series_vals)]
 
-                    # aggregate point data
+                    # aggregate point data - only the groups of this point
+                    point_var_val = {series_var: [point[index]] for index, series_var in enumerate(series_vars)}
                     if any(';' in series_val for series_val in point):
-                        point_data = aggregate_field_values(series_var_val,
+                        point_data = aggregate_field_values(point_var_val,
                                                             point_data,
                                                             self.params['line_type'])
                     elif ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
-                        series_indy_var_val[self.params['indy_var']] = [indy_val]
-                        point_data = aggregate_field_values(series_indy_var_val,
+                        point_var_val[self.params['indy_var']] = [indy_val]
+                        point_data = aggregate_field_values(point_var_val,
                                                             point_data,
                                                             self.params['line_type'])
 
-- 
2.43.0


From cae64628b65afc8ca441e6e18c5f45f29c9e9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:16 +0000
Subject: [PATCH 92/98] fix: scorecard results no longer overwrite the data of
 later derived series

---
 metcalcpy/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index b504b44..39eadf5 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -300,7 +300,7 @@ class Scorecard:
             derived_stat = statistics.mean(stat_values_1)
 
         # create dataframe from teh 1st row of the original data
-        df = ds_1.head(1)
+        df = ds_1.head(1).copy()
         # remove unneeded columns
         for column in COLUMNS_TO_REMOVE:
             if column in self.column_names:
-- 
2.43.0


From e5890a765242ac4c6fbecd1589ffc64064addb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:50 +0000
Subject: [PATCH 93/98] fix: derived curves over dates are no longer refused

---
 metcalcpy/agg_stat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index f080ca3..4ec6914 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -679,11 +679,12 @@ class AggStat:
         num_diff_vals_first = 0
         num_diff_vals_second = 0
         for val in permute_for_first_series:
-            size = len(val.split(GROUP_SEPARATOR))
+            # the separator inside of a date does not make a group
+            size = len(re.findall(DATE_TIME_REGEX, val)) or len(val.split(GROUP_SEPARATOR))
             if size > 1:
                 num_diff_vals_first = num_diff_vals_first + size
         for val in permute_for_second_series:
-            size = len(val.split(GROUP_SEPARATOR))
+            size = len(re.findall(DATE_TIME_REGEX, val)) or len(val.split(GROUP_SEPARATOR))
             if size > 1:
                 num_diff_vals_second = num_diff_vals_second + size
         if num_diff_vals_first == 0:
-- 
2.43.0


From 8d39a255cbbf8602a54d5c85932d5daeb5d42488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:27:33 +0000
Subject: [PATCH 94/98] fix: event equalization of decimal series values

---
 metcalcpy/event_equalize.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/metcalcpy/event_equalize.py b/metcalcpy/event_equalize.py
index dfb172b..da2d96d 100644
--- a/metcalcpy/event_equalize.py
+++ b/metcalcpy/event_equalize.py
@@ -107,6 +107,9 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
             if is_string_integer(permutation[var_for_ee_ind]):
                 permutation_data = permutation_data[permutation_data[var_for_ee]
                                                     == int(permutation[var_for_ee_ind])]
+            elif is_string_decimal(permutation[var_for_ee_ind]):
+                permutation_data = permutation_data[permutation_data[var_for_ee]
+                                                    == float(permutation[var_for_ee_ind])]
             else:
                 if permutation[var_for_ee_ind] == 'NA':
                     permutation_data = permutation_data[permutation_data[var_for_ee].isnull()]
@@ -161,6 +164,19 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
     return series_data_ee
 
 
+def is_string_decimal(str_float):
+    """Checks if the input string is a number with decimals
+
+         Args:
+             str_float: string value to check
+
+        Returns:
+            True - if the input value is a number with decimals
+            False - otherwise
+    """
+    return isinstance(str_float, str) and re.fullmatch(r'-?(\d+\.\d*|\.\d+)', str_float) is not None
+
+
 def is_string_integer(str_int):
     """Checks if the input string is integer.
 
-- 
2.43.0


From 87f568120678ddf60801c5bf2c9ddb8abb57fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:27:33 +0000
Subject: [PATCH 95/98] fix: event equalization tools find the records of
 numeric series values

---
 metcalcpy/agg_stat_eqz.py            |  3 ++-
 metcalcpy/agg_stat_event_equalize.py |  2 ++
 metcalcpy/util/utils.py              | 26 ++++++++++++++++++++------
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 20d9fda..f9abe37 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -40,7 +40,7 @@ import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
-from metcalcpy.util.utils import parse_bool
+from metcalcpy.util.utils import parse_bool, add_numeric_values
 
 
 class AggStatEventEqz:
@@ -118,6 +118,7 @@ class AggStatEventEqz:
                 for val in series_var_vals:
                     split_val = val.split(GROUP_SEPARATOR)
                     series_var_vals_no_group.extend(split_val)
+                series_var_vals_no_group = add_numeric_values(series_var_vals_no_group)
 
                 series_data_for_ee = series_data_for_ee[
                     series_data_for_ee[series_var].isin(series_var_vals_no_group)]
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 2dad7e0..06f4662 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -41,6 +41,7 @@ import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize import event_equalize
+from metcalcpy.util.utils import add_numeric_values
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -129,6 +130,7 @@ class AggStatEventEqualize:
             for val in series_var_vals:
                 split_val = val.split(GROUP_SEPARATOR)
                 series_var_vals_no_group.extend(split_val)
+            series_var_vals_no_group = add_numeric_values(series_var_vals_no_group)
 
             series_data_for_ee = series_data_for_ee[
                 series_data_for_ee[series_var].isin(series_var_vals_no_group)
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index fef21d2..ca90c06 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -134,6 +134,24 @@ def get_derived_curve_name(list_of_names):
     return f"{operation}({list_of_names[0]}{OPERATION_TO_SIGN[operation]}{list_of_names[1]})"
 
 
+def add_numeric_values(values) -> list:
+    """Adds the numbers that text values stand for, to select records from text or numeric columns.
+
+        Args:
+            values: list of strings
+
+        Returns:
+            the list with the numeric values added to it
+    """
+    result = list(values)
+    for val in values:
+        if is_string_integer(val):
+            result.append(int(val))
+        elif is_string_strictly_float(val):
+            result.append(float(val))
+    return result
+
+
 def calc_derived_curve_value(val1, val2, operation):
     """Performs the operation with two numpy arrays.
         Operations can be
@@ -485,11 +503,7 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                 # found the aggregated field
                 single_values = series_val.split(';')
                 # numeric columns hold numbers
-                for val in series_val.split(';'):
-                    if is_string_integer(val):
-                        single_values.append(int(val))
-                    elif is_string_strictly_float(val):
-                        single_values.append(float(val))
+                single_values = add_numeric_values(single_values)
 
                 # for each valid
                 for valid in unique_valid:
@@ -733,7 +747,7 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
                     # and all series variables values
                     if series_var in input_data.keys():
                         series_data_for_ee = series_data_for_ee[
-                            series_data_for_ee[series_var].isin(series_var_vals_no_group)]
+                            series_data_for_ee[series_var].isin(add_numeric_values(series_var_vals_no_group))]
                     if 'fcst_var' in input_data.keys():
                         series_data_for_ee = series_data_for_ee[series_data_for_ee['fcst_var'] == fcst_var]
                     if 'stat_name' in input_data.keys():
-- 
2.43.0


From 222a83ab914178187cf2b0d0c36ad30df6ad6640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:59:50 +0000
Subject: [PATCH 96/98] fix: pool grouped regions when no independent values
 are given

A summary with a grouped and a plain series value and an empty list entry
for the independent value stopped with a TypeError.
---
 metcalcpy/sum_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 17b98ba..e3ae427 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -235,7 +235,7 @@ class SumStat:
                         point_data = aggregate_field_values(point_var_val,
                                                             point_data,
                                                             self.params['line_type'])
-                    elif ';' in indy_val:
+                    elif indy_val is not None and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
                         point_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(point_var_val,
-- 
2.43.0


From 29771c535cf39fe4b58c9cadc0603f481c06bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:19 +0000
Subject: [PATCH 97/98] fix: event frequency of probability scores comes from
 the records of the point

The resolution and Brier score of a point used the event frequency of all
leads and variables of the series. Only reliability diagrams, whose points
are the probability bins, need the frequency of the whole series.
---
 metcalcpy/agg_stat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 4ec6914..5b6230e 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1061,13 +1061,16 @@ class AggStat:
                         fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
                         if 'fcst_var' in self.input_data.columns:
                             all_filters.append((self.input_data['fcst_var'].isin([fcst_var])))
+                            all_filters_pct.append((self.input_data['fcst_var'].isin([fcst_var])))
 
                     # use numpy to select the rows where any record evaluates to True
                     mask = np.array(all_filters).all(axis=0)
                     point_data = self.input_data.loc[mask]
 
                     if self.params['line_type'] == 'pct':
-                        if all_filters_pct:
+                        if self.params['indy_var'] != 'thresh_i':
+                            point_data_pct = point_data
+                        elif all_filters_pct:
                             mask_pct = np.array(all_filters_pct).all(axis=0)
                             point_data_pct = self.input_data.loc[mask_pct]
                         else:
-- 
2.43.0


From 46128bea7c75a86e39213ef9ce2d848083ded821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:49:10 +0000
Subject: [PATCH 98/98] fix: summary tool computes the anomaly statistics of
 sal1l2 records

---
 metcalcpy/sum_stat.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index e3ae427..eb9c3c0 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -45,6 +45,7 @@ from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.util.ctc_statistics import *
 from metcalcpy.util.grad_statistics import *
 from metcalcpy.util.sl1l2_statistics import *
+from metcalcpy.util.sal1l2_statistics import *
 from metcalcpy.util.val1l2_statistics import *
 from metcalcpy.util.vcnt_statistics import *
 from metcalcpy.util.vl1l2_statistics import *
@@ -107,7 +108,8 @@ class SumStat:
     STATISTIC_TO_FIELDS = {'ctc': {"total", "fy_oy", "fy_on", "fn_oy", "fn_on"},
                            'sl1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
                            'grad': {"total", "fgbar", "ogbar", "mgbar", "egbar"},
-                           'sal1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
+                           'sal1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar",
+                                      "fabar", "oabar", "foabar", "ffabar", "ooabar"},
                            'vl1l2': {"total", "ufbar", "vfbar", "uobar", "vobar", "uvfobar",
                                      "uvffbar", "uvoobar", "f_speed_bar", "o_speed_bar"},
                            'val1l2': {"total", "ufabar", "vfabar", "uoabar", "voabar",
@@ -147,6 +149,12 @@ class SumStat:
                 self.aggregate_special_fields('1')
                 self.aggregate_special_fields('2')
 
+                # the anomaly statistics use the original names of the sal1l2 columns
+                if self.params['line_type'] == 'sal1l2':
+                    for name in ('f', 'o', 'fo', 'ff', 'oo'):
+                        self.input_data[name + 'abar'] = self.input_data[name + 'bar']
+                    self.column_names = self.input_data.columns.values
+
                 start_time = time.time()
                 # calculate statistic for each row
                 self.process_rows()
-- 
2.43.0

