From 8274f3f947dc6533721e842f694a240b020df534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 01/19] fix: smoothly_clipped_line is finite for a line of zero
 slope

The clipping transitions were located at the values of x where the line
crosses its limits, which do not exist when the slope is exactly zero: the
result was NaN. Formulate the same transitions in y.
---
 diffstar/diffstarpop/utils.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index 1bb6d1c..a6e42a9 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -179,23 +179,16 @@ def smoothly_clipped_line(x, x0, y0, m, y_lo, y_hi):
         The y-values corresponding to x, smoothly clipped within [y_lo, y_hi].
 
     """
-    x_lo = (y_lo - y0) / m + x0  # value of x at which y=y_lo
-    x_hi = (y_hi - y0) / m + x0  # value of x at which y=y_hi
+    y_lo_bound = y_lo + (y0 - y_lo) / 100.0  # value of y=y_lo+ε
+    y_hi_bound = y_hi - (y_hi - y0) / 100.0  # value of y=y_hi-ε
 
-    dx_lo = x0 - x_lo
-    dx_hi = x_hi - x0
-
-    eps_lo = dx_lo / 100.0  # tiny step in x above x_lo
-    eps_hi = dx_hi / 100.0  # tiny step in x below x_hi
-
-    xc_lo = x_lo + eps_lo  # value of x at which y=y_lo+ε
-    xc_hi = x_hi - eps_hi  # value of x at which y=y_hi-ε
-
-    y_lo_bound = y0 + m * (xc_lo - x0)  # value of y=y_lo+ε
-    y_hi_bound = y0 + m * (xc_hi - x0)  # value of y=y_hi-ε
-
-    CLIPPING_K = 20.0 / eps_lo  # Steep transition speed for this Δx
+    # Transitions are formulated in y so that the m=0 line is well-defined
+    clipping_k = 2000.0 / (y0 - y_lo)  # Steep transition speed
     y_unclipped = y0 + m * (x - x0)
-    y_clipped_from_below = _sigmoid(x, xc_lo, CLIPPING_K, y_lo_bound, y_unclipped)
-    y_clipped = _sigmoid(x, xc_hi, CLIPPING_K, y_clipped_from_below, y_hi_bound)
+    y_clipped_from_below = _sigmoid(
+        y_unclipped, y_lo_bound, clipping_k, y_lo_bound, y_unclipped
+    )
+    y_clipped = _sigmoid(
+        y_unclipped, y_hi_bound, clipping_k, y_clipped_from_below, y_hi_bound
+    )
     return y_clipped
-- 
2.43.0


From 28c7d2cba319ae89fd54fabbeea7c7e7ead5e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 02/19] fix: index extracted Galacticus block relative to its
 first galaxy

Output tables have iend - istart rows but were indexed by absolute galaxy
number, so any block with istart > 0 raised IndexError or shifted rows.
---
 diffstar/data_loaders/extract_galacticus_sfh_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/data_loaders/extract_galacticus_sfh_data.py b/diffstar/data_loaders/extract_galacticus_sfh_data.py
index 2b51dca..2fdfa43 100644
--- a/diffstar/data_loaders/extract_galacticus_sfh_data.py
+++ b/diffstar/data_loaders/extract_galacticus_sfh_data.py
@@ -71,8 +71,8 @@ def extract_galacticus_sfh_tables(fn, colname, istart=0, iend=None):
                     [sfh_data_igal[j] for j in range(n_met, 2 * n_met)]
                 )
 
-                delta_mstar_in_situ_table[igal, :] = np.sum(X_sfh_in_situ, axis=0)
-                delta_mstar_tot_table[igal, :] = np.sum(X_sfh_tot, axis=0)
+                delta_mstar_in_situ_table[igal - istart, :] = np.sum(X_sfh_in_situ, axis=0)
+                delta_mstar_tot_table[igal - istart, :] = np.sum(X_sfh_tot, axis=0)
 
     return delta_mstar_tot_table, delta_mstar_in_situ_table, tarr
 
-- 
2.43.0


From 769a71213b512d571ac3d1dfea47b7fec6ce2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 03/19] fix: minimizer_wrapper keeps retrying when an earlier
 loss is NaN

An attempt with no usable starting point computed the best loss with np.min,
which is NaN after an attempt with undefined loss, and NaN > loss_tol ended
the retries before max_iter.
---
 diffstar/fitting_helpers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 281586b..4f89100 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -142,7 +142,7 @@ def minimizer_wrapper(
             loss_best_list.append(999.99)
             success_list.append(-1)
 
-            loss_best_current = np.min(loss_best_list)
+            loss_best_current = np.nanmin(loss_best_list)
             iter_id += 1
         else:
             res = minimize(
-- 
2.43.0


From f7829e51cc3690cd834e6917882a223f2bb4ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 04/19] fix: load_fit_sfh reads the parameters that diffstar
 fits contain

The parameter tau_dep is no longer part of the model and is not written by
write_collated_data, so loading any fit file raised KeyError.
---
 diffstar/data_loaders/load_smah_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/diffstar/data_loaders/load_smah_data.py b/diffstar/data_loaders/load_smah_data.py
index 48aa091..ec30cbb 100644
--- a/diffstar/data_loaders/load_smah_data.py
+++ b/diffstar/data_loaders/load_smah_data.py
@@ -167,7 +167,6 @@ def load_fit_sfh(basename, data_drn=BEBOP):
                 hdf["lgy_at_mcrit"][:],
                 hdf["indx_lo"][:],
                 hdf["indx_hi"][:],
-                hdf["tau_dep"][:],
             ]
         ).T
         q_fit_params = np.array(
-- 
2.43.0


From 2878dbaf38648af04e448ed66631265ab23eb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 05/19] fix: fitting scripts pass their fit options to the
 fitter

The command line options fstar_tdelay, mass_fit_min and ssfrh_floor were
parsed and collected but never used.
---
 scripts/diffstar_fitting_script_umachine_mgash.py  | 1 +
 scripts/galacticus_diffstar_fitter_script_mgash.py | 2 +-
 scripts/history_fitting_script_TNG_mgash.py        | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index e87cf54..30743b7 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -194,6 +194,7 @@ if __name__ == "__main__":
                         mah_params,
                         lgt0=np.log10(T0_SMDPL),
                         fb=FB_SMDPL,
+                        **kwargs,
                     )
                     sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                     outline = dfh.get_outline(
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 6f11ec3..6881426 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -144,7 +144,7 @@ if __name__ == "__main__":
 
             if run_fitter:
                 _res = dfh.diffstar_fitter(
-                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB
+                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB, **kwargs
                 )
                 sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                 outline = dfh.get_outline(
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index cb634f7..1f8d5a5 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -125,7 +125,7 @@ if __name__ == "__main__":
             logmp_halo = logmp_for_rank[i]
 
             _res = dfh.diffstar_fitter(
-                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG
+                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG, **kwargs
             )
             sfh_params_best, diffstar_loss, diffstar_fit_success = _res
             outline = dfh.get_outline(
-- 
2.43.0


From 9d12b688c553c33d9b51560e55e864eaed3da738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 06/19] fix: fitting scripts collate ranks that hold a single
 galaxy

genfromtxt returns a 1-d array for a file with one row, which could not be
concatenated with the other ranks' results.
---
 scripts/diffstar_fitting_script_umachine_mgash.py  | 2 +-
 scripts/galacticus_diffstar_fitter_script_mgash.py | 2 +-
 scripts/history_fitting_script_TNG_mgash.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index 30743b7..e469e29 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -220,7 +220,7 @@ if __name__ == "__main__":
             collector = []
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
-                fit_data = np.genfromtxt(fit_fn, dtype="str")
+                fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
                 collector.append(fit_data)
             subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 6881426..2f1e728 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -171,7 +171,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index 1f8d5a5..de4dc79 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -148,7 +148,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From a9b342b0938ff8e71409fe37a52aacb49258af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 07/19] fix: fitting scripts skip halos whose diffmah fit has
 too few points

The loader blanks the halo parameters of such fits (all -1), so a galaxy with
a positive diffmah loss but too few points was fitted with a meaningless halo
instead of being marked as not fit.
---
 scripts/diffstar_fitting_script_umachine_mgash.py  | 2 ++
 scripts/galacticus_diffstar_fitter_script_mgash.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index e469e29..ef07f62 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -11,6 +11,7 @@ from mpi4py import MPI
 import diffstar.fitting_helpers.diffstar_fitting_helpers as dfh
 from diffstar.data_loaders.load_smah_data import (
     FB_SMDPL,
+    NPTS_FIT_MIN,
     T0_SMDPL,
     load_smdpl_diffmah_fits,
     load_SMDPL_DR1_data,
@@ -149,6 +150,7 @@ if __name__ == "__main__":
         assert n_diffstar == n_diffmah, msg.format(n_diffstar, n_diffmah)
 
         has_diffmah_fit = (diffmah_loss > 0) & (logmp0 > logmp0_min)
+        has_diffmah_fit &= n_points_per_diffmah_fit >= NPTS_FIT_MIN
 
         if rank == 0:
             print("Number of galaxies in subvolume = {}".format(len(halo_ids)))
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 2f1e728..deb1bc6 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -11,6 +11,7 @@ from mpi4py import MPI
 import diffstar.fitting_helpers.diffstar_fitting_helpers as dfh
 from diffstar.data_loaders import load_galacticus_sfh as lgs
 from diffstar.data_loaders import load_precomputed_diffmah_fits
+from diffstar.data_loaders.load_smah_data import NPTS_FIT_MIN
 from diffstar.utils import cumulative_mstar_formed
 
 DRN_POBOY = "/Users/aphearin/work/DATA/Galacticus/diffstarpop_data"
@@ -115,6 +116,7 @@ if __name__ == "__main__":
         nhalos_for_rank = NHALOS_TEST
 
     has_diffmah_fit_for_rank = diffmah_loss_for_rank > 0
+    has_diffmah_fit_for_rank &= n_points_per_diffmah_fit_for_rank >= NPTS_FIT_MIN
     has_diffmah_fit_for_rank &= logmp0_for_rank > logmp0_min
 
     if rank == 0:
-- 
2.43.0


From 6ecb6729cef6ee3a46688f243cf7fa6e5efc0ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 08/19] fix: pass the baryon fraction to calc_sfh_galpop in the
 smhm scripts

---
 scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py | 4 ++--
 scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
index 28fa747..d4de035 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
@@ -6,7 +6,7 @@ import h5py
 import numpy as np
 from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
 from diffsky.diffndhist import tw_ndhist_weighted
-from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN
+from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, FB, LGT0, T_TABLE_MIN
 from diffstar.sfh_model import calc_sfh_galpop
 from diffstar.data_loaders.load_galacticus_sfh import load_galacticus_diffstar_data
 from scipy.stats import binned_statistic
@@ -71,7 +71,7 @@ def load_diffstar_sfh_tables(
     __, log_mah_table = mah_halopop(mah_params, t_table, LGT0)
 
     sfh_table, smh_table = calc_sfh_galpop(
-        sfh_params, mah_params, t_table, lgt0=LGT0, return_smh=True
+        sfh_params, mah_params, t_table, lgt0=LGT0, fb=FB, return_smh=True
     )
     log_sfh_table = np.log10(sfh_table)
     log_smh_table = np.log10(smh_table)
diff --git a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
index 2ec5211..ddbaff0 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
@@ -6,7 +6,7 @@ import h5py
 import numpy as np
 from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
 from diffsky.diffndhist import tw_ndhist_weighted
-from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN
+from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, FB, LGT0, T_TABLE_MIN
 from diffstar.sfh_model import calc_sfh_galpop
 from scipy.stats import binned_statistic
 from astropy.cosmology import Planck13
@@ -155,7 +155,7 @@ def load_diffstar_sfh_tables(
     __, log_mah_table = mah_halopop(mah_params, t_table, LGT0)
 
     sfh_table, smh_table = calc_sfh_galpop(
-        sfh_params, mah_params, t_table, lgt0=LGT0, return_smh=True
+        sfh_params, mah_params, t_table, lgt0=LGT0, fb=FB, return_smh=True
     )
     log_sfh_table = np.log10(sfh_table)
     log_smh_table = np.log10(smh_table)
-- 
2.43.0


From 96f0f2584c3c9972d129b476e274ad691c1163db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 09/19] fix: empty halo selections count as zero in the smhm
 histograms

---
 scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py | 3 +++
 scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py      | 3 +++
 scripts/diffstarpop_scripts/smhm_utils_tng_mgash.py        | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
index d4de035..85a24cb 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
@@ -113,6 +113,9 @@ def compute_diff_histograms_atz(logmh_bins, log_mah_table, log_smh_table):
 
 
 def compute_histograms_atz(logmh_bins, log_mah_table, log_smh_table):
+    if len(log_mah_table) == 0:
+        return np.zeros(len(logmh_bins) - 1), np.zeros(len(logmh_bins) - 1)
+
     count = binned_statistic(
         log_mah_table, values=log_smh_table, bins=logmh_bins, statistic="count"
     )[0]
diff --git a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
index ddbaff0..b34462d 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
@@ -236,6 +236,9 @@ def compute_diff_histograms_atz(logmh_bins, log_mah_table, log_smh_table):
 
 
 def compute_histograms_atz(logmh_bins, log_mah_table, log_smh_table):
+    if len(log_mah_table) == 0:
+        return np.zeros(len(logmh_bins) - 1), np.zeros(len(logmh_bins) - 1)
+
     count = binned_statistic(
         log_mah_table, values=log_smh_table, bins=logmh_bins, statistic="count"
     )[0]
diff --git a/scripts/diffstarpop_scripts/smhm_utils_tng_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_tng_mgash.py
index d7712b5..d514c30 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_tng_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_tng_mgash.py
@@ -182,6 +182,9 @@ def compute_diff_histograms_atz(logmh_bins, log_mah_table, log_smh_table):
 
 
 def compute_histograms_atz(logmh_bins, log_mah_table, log_smh_table):
+    if len(log_mah_table) == 0:
+        return np.zeros(len(logmh_bins) - 1), np.zeros(len(logmh_bins) - 1)
+
     count = binned_statistic(
         log_mah_table, values=log_smh_table, bins=logmh_bins, statistic="count"
     )[0]
-- 
2.43.0


From c078d00c945813ca2ffa68fac73361573b7841e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 10/19] fix: smhm collation skips subvolumes without counts

---
 .../diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
index 35365d4..b25a292 100644
--- a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
+++ b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
@@ -198,7 +198,10 @@ if __name__ == "__main__":
 
         for i in subvols:
             fnout = os.path.join(outdrn, "_tmp_subvol_%d_smdpl_smhm.h5" % i)
+            if not os.path.isfile(fnout):  # no sumstat counts for this subvolume
+                continue
             with h5py.File(fnout, "r") as hdfout:
+                age_targets = hdfout["age_targets"][:]
                 wcounts = wcounts + hdfout["wcounts_i"][:]
                 whist = whist + hdfout["whist_i"][:]
                 counts = counts + hdfout["counts_i"][:]
-- 
2.43.0


From f246e91542b424cabc210b91894790e59636c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 11/19] fix: subvolume names of mixed width need not include a
 one-digit file

---
 scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
index b34462d..a1215bc 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
@@ -69,7 +69,7 @@ def return_subvol_str_diffmah(subvol, sim_name, diffstar_drn, diffstar_bnpat):
         subvols = [x.split("_")[-1].split(".")[0] for x in matching_files]
     subvols_len = np.array([len(x) for x in subvols])
 
-    if np.any(subvols_len == 1):
+    if np.any(subvols_len != subvols_len.max()):
         subvol_str = f"{subvol:d}"
     elif np.all(subvols_len == subvols_len.max()):
         nchar_subvol = subvols_len.max()
@@ -84,7 +84,7 @@ def return_subvol_str(subvol, sim_name, diffstar_drn, diffstar_bnpat):
     subvols = [x.split("_")[-1].split(".")[0] for x in matching_files]
     subvols_len = np.array([len(x) for x in subvols])
 
-    if np.any(subvols_len == 1):
+    if np.any(subvols_len != subvols_len.max()):
         subvol_str = f"{subvol:d}"
     elif np.all(subvols_len == subvols_len.max()):
         nchar_subvol = subvols_len.max()
-- 
2.43.0


From 24ae60826132bd1daaef835db83e0d9dc13c6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 12/19] fix: epochs without a qualifying mass bin in the ssfr
 loss data

---
 scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py b/scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py
index 8699aa9..ca1b71c 100644
--- a/scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py
+++ b/scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py
@@ -338,6 +338,8 @@ def prepare_ragged(indx_pdf, nmhalo_pdf, index_mhalo):
 
     for z in range(nz):
         m = len(indx_pdf[z])
+        if m == 0:  # no halo mass bin qualifies at this epoch
+            continue
         idx_np[z, :m] = jnp.asarray(indx_pdf[z])
         w_np[z, :m] = jnp.asarray(nmhalo_pdf[z, index_mhalo[z]])
         # msk_np[z, :m] = True
-- 
2.43.0


From 56dab76ef84a68295e72274d509d86c0ed87dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 13/19] fix: save the starting point when no fit step was
 defined

---
 scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py b/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py
index ef0732f..4b25b30 100644
--- a/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py
+++ b/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py
@@ -210,8 +210,11 @@ if __name__ == "__main__":
         if ~no_nan_grads:
             break
 
-    argmin_best = np.argmin(loss_arr)
-    best_fit_u_params = params_arr[argmin_best]
+    if np.any(np.isfinite(loss_arr)):
+        argmin_best = np.argmin(loss_arr)
+        best_fit_u_params = params_arr[argmin_best]
+    else:  # no step had a defined loss and gradient
+        best_fit_u_params = np.array(params_init)
 
     def return_params_from_result(best_fit_u_params):
         bestfit_u_tuple = DEFAULT_DIFFSTARPOP_U_PARAMS._make(best_fit_u_params)
-- 
2.43.0


From 2a4fcf7950b0ef2049e30c2618c77eeed71b4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 14/19] fix: collate halo fits of ranks that hold a single halo

---
 scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
index 1ebf68f..bcf7703 100644
--- a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
+++ b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
@@ -121,7 +121,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.atleast_2d(np.genfromtxt(fit_fn, dtype="str"))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From e6b331348849783da372efef3c09602913958cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 15/19] fix: older fitting scripts pass their fit options to
 the fitter

---
 scripts/diffstar_fitting_script_umachine.py  | 1 +
 scripts/galacticus_diffstar_fitter_script.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index 157f9ce..e5abf42 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -194,6 +194,7 @@ if __name__ == "__main__":
                         mah_params,
                         lgt0=np.log10(T0_SMDPL),
                         fb=FB_SMDPL,
+                        **kwargs,
                     )
                     sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                     outline = dfh.get_outline(
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 6f11ec3..6881426 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -144,7 +144,7 @@ if __name__ == "__main__":
 
             if run_fitter:
                 _res = dfh.diffstar_fitter(
-                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB
+                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB, **kwargs
                 )
                 sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                 outline = dfh.get_outline(
-- 
2.43.0


From d73b5fe94c2d255894e5cde0af8fc4293e1fd0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 16/19] fix: older fitting scripts collate ranks that hold a
 single galaxy

---
 scripts/diffstar_fitting_script_umachine.py  | 2 +-
 scripts/galacticus_diffstar_fitter_script.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index e5abf42..0ab0d45 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -220,7 +220,7 @@ if __name__ == "__main__":
             collector = []
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
-                fit_data = np.genfromtxt(fit_fn, dtype="str")
+                fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
                 collector.append(fit_data)
             subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 6881426..2f1e728 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -171,7 +171,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From 008e42289e69d86af6d0d47238595c67d409e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 17/19] fix: older fitting scripts skip halos whose diffmah fit
 has too few points

---
 scripts/diffstar_fitting_script_umachine.py  | 2 ++
 scripts/galacticus_diffstar_fitter_script.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index 0ab0d45..1fae806 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -11,6 +11,7 @@ from mpi4py import MPI
 import diffstar.fitting_helpers.diffstar_fitting_helpers as dfh
 from diffstar.data_loaders.load_smah_data import (
     FB_SMDPL,
+    NPTS_FIT_MIN,
     T0_SMDPL,
     load_smdpl_diffmah_fits,
     load_SMDPL_DR1_data,
@@ -149,6 +150,7 @@ if __name__ == "__main__":
         assert n_diffstar == n_diffmah, msg.format(n_diffstar, n_diffmah)
 
         has_diffmah_fit = (diffmah_loss > 0) & (logmp0 > logmp0_min)
+        has_diffmah_fit &= n_points_per_diffmah_fit >= NPTS_FIT_MIN
 
         if rank == 0:
             print("Number of galaxies in subvolume = {}".format(len(halo_ids)))
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 2f1e728..deb1bc6 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -11,6 +11,7 @@ from mpi4py import MPI
 import diffstar.fitting_helpers.diffstar_fitting_helpers as dfh
 from diffstar.data_loaders import load_galacticus_sfh as lgs
 from diffstar.data_loaders import load_precomputed_diffmah_fits
+from diffstar.data_loaders.load_smah_data import NPTS_FIT_MIN
 from diffstar.utils import cumulative_mstar_formed
 
 DRN_POBOY = "/Users/aphearin/work/DATA/Galacticus/diffstarpop_data"
@@ -115,6 +116,7 @@ if __name__ == "__main__":
         nhalos_for_rank = NHALOS_TEST
 
     has_diffmah_fit_for_rank = diffmah_loss_for_rank > 0
+    has_diffmah_fit_for_rank &= n_points_per_diffmah_fit_for_rank >= NPTS_FIT_MIN
     has_diffmah_fit_for_rank &= logmp0_for_rank > logmp0_min
 
     if rank == 0:
-- 
2.43.0


From 1820142c37950b9238e5b52271b1640c6db4d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 18/19] fix: a sub-volume file left behind by an interrupted
 run is not counted

---
 .../measure_smhm_smdpl_script_mpi_mgash.py                    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
index b25a292..9f2e086 100644
--- a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
+++ b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
@@ -98,6 +98,9 @@ if __name__ == "__main__":
 
     for i in subvols_arr:
         gc.collect()
+        fnout = os.path.join(outdrn, "_tmp_subvol_%d_smdpl_smhm.h5" % i)
+        if os.path.isfile(fnout):  # left behind by an interrupted run
+            os.remove(fnout)
         try:
             start = time()
             _res = smhm_utils.create_target_data(
@@ -143,7 +146,6 @@ if __name__ == "__main__":
                 diffstar_bnpat=diffstar_bnpat,
             )
 
-            fnout = os.path.join(outdrn, "_tmp_subvol_%d_smdpl_smhm.h5" % i)
             with h5py.File(fnout, "w") as hdfout:
                 hdfout["wcounts_i"] = wcounts_i
                 hdfout["whist_i"] = whist_i
-- 
2.43.0


From 9235618c78108be85f307d8b2910371a57287e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 19/19] fix: the population minimizer reports fits that did not
 converge

---
 diffstar/diffstarpop/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index a6e42a9..6c813aa 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -1,5 +1,6 @@
 """ """
 
+import numpy as np
 from jax import jit as jjit
 from jax import lax, nn
 from jax import numpy as jnp
@@ -42,7 +43,7 @@ def _inverse_sigmoid(y, x0=0, k=1, ymin=-1, ymax=1):
 
 
 def minimizer(loss_func, loss_func_deriv, p_init, loss_data):
-    """Minimizer mixing scipy's L-BFGS-B minimizer with JAX's Adam as a backup plan.
+    """Wrapper around scipy's L-BFGS-B minimizer.
 
     Parameters
     ----------
@@ -63,12 +64,12 @@ def minimizer(loss_func, loss_func_deriv, p_init, loss_data):
     Returns
     -------
     p_best : ndarray of shape (n_params, )
-        Stores the best-fit value of the parameters after n_step steps
+        Stores the best-fit value of the parameters
     loss_best : float
         Final value of the loss
     success : int
-        -1 if NaN or inf is encountered by the fitter, causing termination before n_step
-        0 for a fit that fails with L-BFGS-B but terminates without problems using Adam
+        -1 if NaN or inf is encountered by the fitter
+        0 for a fit that fails with L-BFGS-B
         1 for a fit that terminates with no such problems using L-BFGS-B
 
     """
@@ -78,7 +79,10 @@ def minimizer(loss_func, loss_func_deriv, p_init, loss_data):
     )
     p_best = res.x
     loss_best = float(res.fun)
-    success = 1
+    if not (np.isfinite(loss_best) and np.all(np.isfinite(p_best))):
+        success = -1
+    else:
+        success = 1 if res.success else 0
 
     return p_best, loss_best, success
 
-- 
2.43.0

