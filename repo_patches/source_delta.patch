From 2292f14ffb94116a023f6774a63410af0b5b13b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 01/33] fix: use the same minimum number of groups with and
 without multiprocessing in jump detection

The single-process path requires 3 usable groups, the multiprocessing path
used the JumpData default of 1, so short ramps were skipped or processed
depending on max_cores.
---
 src/stcal/jump/jump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 9069ed6..fdd2f8f 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -89,8 +89,8 @@ def detect_jumps_data(jump_data):
     n_slices = compute_num_cores(jump_data.max_cores, n_rows, max_available)
 
     twopt_params = TwoPointParams(jump_data)
+    twopt_params.minimum_groups = 3
     if n_slices == 1:
-        twopt_params.minimum_groups = 3
         gdq, row_below_dq, row_above_dq, total_primary_crs = twopt.find_crs(
             data, gdq, readnoise_2d, twopt_params
         )
-- 
2.43.0


From e18b038b9c275cfac99db4144916e93e3568153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 02/33] fix: jump detection hangs or leaks its worker pool when
 a worker fails

A worker killed while holding a slice left Pool.starmap waiting forever, and an
exception raised in a slice left the pool open.
---
 src/stcal/jump/jump.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index fdd2f8f..2077199 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -9,6 +9,7 @@ import logging
 import multiprocessing
 import time
 import warnings
+from concurrent.futures import ProcessPoolExecutor
 
 import astropy.stats as stats
 import numpy as np
@@ -154,13 +155,12 @@ def twopoint_diff_multi(twopt_params, data, gdq, readnoise_2d, n_slices):
 
     log.info("Creating %d processes for jump detection ", n_slices)
     ctx = multiprocessing.get_context("spawn")
-    pool = ctx.Pool(processes=n_slices)
 
-    # Starts each slice in its own process. Starmap allows more than one
-    # parameter to be passed.
-    real_result = pool.starmap(twopt.find_crs, slices)
-    pool.close()
-    pool.join()
+    # Starts each slice in its own process.  Unlike a multiprocessing.Pool, the
+    # executor raises BrokenProcessPool if a worker process dies, and leaving
+    # the context manager shuts the workers down even if a slice fails.
+    with ProcessPoolExecutor(max_workers=n_slices, mp_context=ctx) as executor:
+        real_result = list(executor.map(twopt.find_crs, *zip(*slices, strict=True)))
 
     return reassemble_sliced_data(real_result, gdq, yinc)
 
-- 
2.43.0


From 8f431f437eb118e86a0708d904eaa197796390fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 03/33] fix: ramp fitting hangs or leaks its worker pool when a
 worker fails

Same defect and repair as in jump detection.
---
 src/stcal/ramp_fitting/ols_fit.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 86f8a13..65db32b 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -4,6 +4,7 @@ import logging
 import multiprocessing
 import sys
 import time
+from concurrent.futures import ProcessPoolExecutor
 from multiprocessing import cpu_count
 
 import numpy as np
@@ -152,10 +153,11 @@ def ols_ramp_fit_multiprocessing(ramp_data, save_opt, readnoise_2d, gain_2d, wei
     )
 
     ctx = multiprocessing.get_context("spawn")
-    pool = ctx.Pool(processes=number_slices)
-    pool_results = pool.starmap(ols_ramp_fit_single, slices)
-    pool.close()
-    pool.join()
+    # Unlike a multiprocessing.Pool, the executor raises BrokenProcessPool if a
+    # worker process dies, and leaving the context manager shuts the workers
+    # down even if a slice fails.
+    with ProcessPoolExecutor(max_workers=number_slices, mp_context=ctx) as executor:
+        pool_results = list(executor.map(ols_ramp_fit_single, *zip(*slices, strict=True)))
 
     # Reassemble results
     image_info, integ_info, opt_info = assemble_pool_results(
-- 
2.43.0


From 44c9374cc5b1aa6c6d2e3e69a7a6cb5fc0805840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 04/33] fix: jump detection counts usable groups per slice when
 multiprocessing

A group that is DO_NOT_USE in every pixel of one slice but not of the whole
exposure changed the detection method for that slice, and a skipped exposure
reported -99 times the number of slices.
---
 src/stcal/jump/jump.py                | 15 +++++++++++++--
 src/stcal/jump/twopoint_difference.py |  8 ++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 2077199..a43ebc2 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -5,6 +5,7 @@ This includes detecting cosmic ray jumps
 and their side effects like snowballs and showers.
 """
 
+import itertools
 import logging
 import multiprocessing
 import time
@@ -151,6 +152,10 @@ def twopoint_diff_multi(twopt_params, data, gdq, readnoise_2d, n_slices):
     total_primary_crs : int
         total number of primary cosmic rays computed
     """
+    # The usable groups are a property of the exposure, not of each slice.
+    nints, ngroups = gdq.shape[:2]
+    ngroups_ans = twopt.groups_all_set_dnu(nints, ngroups, gdq, twopt_params)
+
     slices, yinc = slice_data(twopt_params, data, gdq, readnoise_2d, n_slices)
 
     log.info("Creating %d processes for jump detection ", n_slices)
@@ -160,7 +165,9 @@ def twopoint_diff_multi(twopt_params, data, gdq, readnoise_2d, n_slices):
     # executor raises BrokenProcessPool if a worker process dies, and leaving
     # the context manager shuts the workers down even if a slice fails.
     with ProcessPoolExecutor(max_workers=n_slices, mp_context=ctx) as executor:
-        real_result = list(executor.map(twopt.find_crs, *zip(*slices, strict=True)))
+        real_result = list(
+            executor.map(twopt.find_crs, *zip(*slices, strict=True), itertools.repeat(ngroups_ans))
+        )
 
     return reassemble_sliced_data(real_result, gdq, yinc)
 
@@ -207,7 +214,11 @@ def reassemble_sliced_data(real_result, gdq, yinc):
             gdq[:, :, k * yinc : (k + 1) * yinc, :] = resultslice[0]
         row_below_gdq[:, :, :] = resultslice[1]
         row_above_gdq[:, :, :] = resultslice[2]
-        total_primary_crs += resultslice[3]
+        if resultslice[3] == -99:
+            # The exposure was skipped, which is the same for every slice
+            total_primary_crs = -99
+        else:
+            total_primary_crs += resultslice[3]
         if k != 0:
             # For all but the first slice, flag any CR neighbors in the top
             # row of the previous slice and flag any neighbors in the
diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 952cb41..0e3e347 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -8,7 +8,7 @@ from astropy.utils.exceptions import AstropyUserWarning
 log = logging.getLogger(__name__)
 
 
-def find_crs(data, group_dq, read_noise, twopt_p):
+def find_crs(data, group_dq, read_noise, twopt_p, ngroups_ans=None):
     """
     Detect jump due to cosmic rays using the two point difference method.
 
@@ -22,6 +22,9 @@ def find_crs(data, group_dq, read_noise, twopt_p):
         The read noise of each pixel
     twopt_p : TwoPointParams
         Class containing two point difference parameters.
+    ngroups_ans : tuple or None
+        The group totals of the whole exposure, from `groups_all_set_dnu`, when
+        the input is a slice of it. If None, they are computed from the input.
 
     Returns
     -------
@@ -43,7 +46,8 @@ def find_crs(data, group_dq, read_noise, twopt_p):
     row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
     row_below_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
 
-    ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
+    if ngroups_ans is None:
+        ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
     min_usable_groups = ngroups_ans[0]
     total_groups = ngroups_ans[1]
     min_usable_diffs = ngroups_ans[2]
-- 
2.43.0


From 38a713e841a57a7c91ea14c11acc7b9142d17458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 05/33] fix: groups after a jump are not flagged across the
 seams between multiprocessing slices

Neighbors flagged in the adjacent slice did not get the after-jump flagging that
they get without multiprocessing. Give each slice a one row halo instead of
merging the neighbor flags afterwards.
---
 src/stcal/jump/jump.py                | 53 +++++----------------------
 src/stcal/jump/twopoint_difference.py | 15 ++++++--
 2 files changed, 21 insertions(+), 47 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index a43ebc2..6c398c1 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -197,13 +197,7 @@ def reassemble_sliced_data(real_result, gdq, yinc):
     total_primary_crs : int
         Total number of primary cosmic rays detected.
     """
-    nints, ngroups, nrows, ncols = gdq.shape
-    row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
-    previous_row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
-    row_below_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
-
-    # Reconstruct gdq, the row_above_gdq, and the row_below_gdq from the
-    # slice result
+    nrows = gdq.shape[2]
     total_primary_crs = 0
 
     # Reassemble the data
@@ -212,23 +206,11 @@ def reassemble_sliced_data(real_result, gdq, yinc):
             gdq[:, :, k * yinc : nrows, :] = resultslice[0]
         else:
             gdq[:, :, k * yinc : (k + 1) * yinc, :] = resultslice[0]
-        row_below_gdq[:, :, :] = resultslice[1]
-        row_above_gdq[:, :, :] = resultslice[2]
         if resultslice[3] == -99:
             # The exposure was skipped, which is the same for every slice
             total_primary_crs = -99
         else:
             total_primary_crs += resultslice[3]
-        if k != 0:
-            # For all but the first slice, flag any CR neighbors in the top
-            # row of the previous slice and flag any neighbors in the
-            # bottom row of this slice saved from the top of the previous
-            # slice
-            gdq[:, :, k * yinc - 1, :] |= row_below_gdq[:, :, :]
-            gdq[:, :, k * yinc, :] |= previous_row_above_gdq[:, :, :]
-
-        # save the neighbors to be flagged that will be in the next slice
-        previous_row_above_gdq = row_above_gdq.copy()
 
     return gdq, total_primary_crs
 
@@ -266,31 +248,16 @@ def slice_data(twopt_params, data, gdq, readnoise_2d, n_slices):
     nrows = data.shape[2]
     yinc = nrows // n_slices
     slices = []
-    # Slice up data, gdq, readnoise_2d into slices
-    # Each element of slices is a tuple of
-    # (data, gdq, readnoise_2d, rejection_thresh, three_grp_thresh,
-    #  four_grp_thresh, nframes)
-    for i in range(n_slices - 1):
-        slices.insert(
-            i,
-            (
-                data[:, :, i * yinc : (i + 1) * yinc, :],
-                gdq[:, :, i * yinc : (i + 1) * yinc, :],
-                readnoise_2d[i * yinc : (i + 1) * yinc, :],
-                twopt_params,
-            ),
-        )
+    # Slice up data, gdq, readnoise_2d into slices.  Each slice also gets the
+    # adjacent row of its neighbor slices, because a jump there can flag pixels
+    # in this slice, both in the same group and in the groups after it.
+    for i in range(n_slices):
+        start = i * yinc
+        end = nrows if i == n_slices - 1 else (i + 1) * yinc
+        halo = (min(1, start), min(1, nrows - end))
+        rows = slice(start - halo[0], end + halo[1])
+        slices.append((data[:, :, rows, :], gdq[:, :, rows, :], readnoise_2d[rows, :], twopt_params, halo))
 
-    # last slice get the rest
-    slices.insert(
-        n_slices - 1,
-        (
-            data[:, :, (n_slices - 1) * yinc : nrows, :],
-            gdq[:, :, (n_slices - 1) * yinc : nrows, :],
-            readnoise_2d[(n_slices - 1) * yinc : nrows, :],
-            twopt_params,
-        ),
-    )
     return slices, yinc
 
 
diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 0e3e347..084c9a4 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -8,7 +8,7 @@ from astropy.utils.exceptions import AstropyUserWarning
 log = logging.getLogger(__name__)
 
 
-def find_crs(data, group_dq, read_noise, twopt_p, ngroups_ans=None):
+def find_crs(data, group_dq, read_noise, twopt_p, halo=(0, 0), ngroups_ans=None):
     """
     Detect jump due to cosmic rays using the two point difference method.
 
@@ -22,6 +22,10 @@ def find_crs(data, group_dq, read_noise, twopt_p, ngroups_ans=None):
         The read noise of each pixel
     twopt_p : TwoPointParams
         Class containing two point difference parameters.
+    halo : tuple
+        The number of rows at the bottom and at the top of the input that are
+        only used to flag the neighbors of their jumps in the other rows.  They
+        are not part of the output.
     ngroups_ans : tuple or None
         The group totals of the whole exposure, from `groups_all_set_dnu`, when
         the input is a slice of it. If None, they are computed from the input.
@@ -41,6 +45,7 @@ def find_crs(data, group_dq, read_noise, twopt_p, ngroups_ans=None):
     # Get data characteristics
     nints, ngroups, nrows, ncols = data.shape
     ndiffs = (ngroups - 1) * nints
+    rows = slice(halo[0], nrows - halo[1])
 
     # Create arrays for output
     row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
@@ -64,20 +69,22 @@ def find_crs(data, group_dq, read_noise, twopt_p, ngroups_ans=None):
 
     if total_noise_min_grps_fails and sig_clip_grps_fails:
         log.info("Jump Step was skipped because exposure has less than the minimum number of usable groups")
-        return group_dq, row_below_gdq, row_above_gdq, -99
+        return group_dq[:, :, rows], row_below_gdq, row_above_gdq, -99
 
     group_dq, first_diffs, median_diffs, sigma = run_jump_detection(
         data, group_dq, ndiffs, read_noise_2, nints, ngroups, total_groups, min_usable_diffs, twopt_p
     )
 
     # sum by integration to avoid large temporary arrays
-    num_primary_crs = np.sum([np.count_nonzero(per_group_dq & twopt_p.fl_jump) for per_group_dq in group_dq])
+    num_primary_crs = np.sum(
+        [np.count_nonzero(per_group_dq & twopt_p.fl_jump) for per_group_dq in group_dq[:, :, rows]]
+    )
 
     group_dq, row_below_gdq, row_above_gdq = jump_detection_post_processing(
         group_dq, nints, ngroups, first_diffs, median_diffs, sigma, row_below_gdq, row_above_gdq, twopt_p
     )
 
-    return group_dq, row_below_gdq, row_above_gdq, num_primary_crs
+    return group_dq[:, :, rows], row_below_gdq, row_above_gdq, num_primary_crs
 
 
 def jump_detection_post_processing(
-- 
2.43.0


From 06a9b5e7a1512a1da46d99acd90ad482a61a537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 06/33] fix: shower detection sees unmasked data after
 multiprocessed jump detection

---
 src/stcal/jump/jump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 6c398c1..dd4d661 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -98,6 +98,9 @@ def detect_jumps_data(jump_data):
         )
     else:
         gdq, total_primary_crs = twopoint_diff_multi(twopt_params, data, gdq, readnoise_2d, n_slices)
+        if total_primary_crs != -99:
+            # Jump detection masks the data in place, but the workers have copies.
+            data[gdq & (dnu | sat) != 0] = np.nan
 
     # remove redundant bits in pixels that have jump flagged but were
     # already flagged as do_not_use or saturated.
-- 
2.43.0


From 7ab190a8aaedb46a54f8374f81093cae52640812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 07/33] fix: optional ramp fit products have an extra empty
 segment when multiprocessing finds none

---
 src/stcal/ramp_fitting/ols_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 65db32b..0862153 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -362,7 +362,7 @@ def get_max_segs_crs(pool_results):
     crs_max : int
         The maximum CRs computed over all slices.
     """
-    seg_max = 1
+    seg_max = 0
     crs_max = 0
     for result in pool_results:
         image_slice, integ_slice, opt_slice = result
-- 
2.43.0


From bf7f56489751a3d75dd8f1bbc3b9edb947252903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 08/33] fix: one group suppression option is lost when ramp
 fitting uses multiprocessing

The option also disables the use of the zeroframe, so saturated ramps were
fitted from it or not depending on max_cores.
---
 src/stcal/ramp_fitting/ols_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 0862153..82d7a03 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -519,6 +519,8 @@ def slice_ramp_data(ramp_data, start_row, nrows):
     else:
         ramp_data_slice.orig_gdq = None
 
+    ramp_data_slice.suppress_one_group_ramps = ramp_data.suppress_one_group_ramps
+
     # Slice info
     ramp_data_slice.start_row = start_row
     ramp_data_slice.num_rows = nrows
-- 
2.43.0


From 7bfa4d451b4595119e2d2477ee97f174ba99ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 09/33] fix: on-disk median refuses images when its buffer
 holds more than one frame

The number of images accepted was the number of sections on disk, which
depends on the buffer size, instead of the number of images announced.
---
 src/stcal/outlier_detection/median.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index cb3c40a..e3b13ea 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -334,8 +334,8 @@ class _OnDiskMedian:
         Split data into ``nsections`` sections and write/append each section to
         the corresponding temporary file.
         """
-        if self._n_adds >= self.nsections:
-            msg = f"Too many calls to add_image. Expected at most {self.nsections} input models."
+        if self._n_adds >= self._expected_nframes:
+            msg = f"Too many calls to add_image. Expected at most {self._expected_nframes} input models."
             raise IndexError(msg)
         self._validate_data(data)
         self._n_adds += 1
-- 
2.43.0


From 8761c97a47b733cb3b0e49b8c3313d0024b47cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 10/33] fix: on-disk median is silently wrong after an image
 could not be written

When writing one of the temporary files failed, the files before it had one
image more than the files after it, or a torn image. Adding the image again or
going on with the next one then gave the median of incomplete or duplicated
data.
---
 src/stcal/outlier_detection/median.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index e3b13ea..16a54a6 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -264,6 +264,7 @@ class _OnDiskMedian:
         self.nsections, self.section_nrows = self._get_buffer_indices(buffer_size=buffer_size)
         self.slice_shape = (self.section_nrows, shape[2])
         self._n_adds = 0
+        self._complete = True
 
         # instantiate a temporary DiskAppendableArray for each section
         self._temp_arrays = self._temparray_setup(dtype)
@@ -338,12 +339,21 @@ class _OnDiskMedian:
             msg = f"Too many calls to add_image. Expected at most {self._expected_nframes} input models."
             raise IndexError(msg)
         self._validate_data(data)
-        self._n_adds += 1
+        self._check_complete()
+        self._complete = False
         for i in range(self.nsections):
             row1 = i * self.section_nrows
             row2 = min(row1 + self.section_nrows, self.frame_shape[0])
             arr = self._temp_arrays[i]
             arr.append(data[row1:row2])
+        self._n_adds += 1
+        self._complete = True
+
+    def _check_complete(self) -> None:
+        """Ensure no earlier image was written to only some of the sections."""
+        if not self._complete:
+            msg = "The temporary files are incomplete because adding an image failed."
+            raise RuntimeError(msg)
 
     def _validate_data(self, data: np.ndarray) -> None:
         """Ensure data array being appended has correct shape and dtype."""
@@ -373,6 +383,7 @@ class _OnDiskMedian:
             2-dimensional array of shape [``imrows``, ``imcols``] containing
             median values computed across all images previously provided to ``add_image``.
         """
+        self._check_complete()
         row_indices = [
             (i * self.section_nrows, min((i + 1) * self.section_nrows, self.frame_shape[0]))
             for i in range(self.nsections)
-- 
2.43.0


From 984dc69d52c61ad6da80fd777121e237abae203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 11/33] fix: in-memory median uses uninitialized memory for
 images never appended

---
 src/stcal/outlier_detection/median.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index 16a54a6..b669c10 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -94,6 +94,7 @@ class MedianComputer:
         self.dtype = dtype
         if self.in_memory:
             computer: Any = np.empty(full_shape, dtype=dtype)
+            self._filled = np.zeros(full_shape[0], dtype=bool)
         else:
             computer = _OnDiskMedian(full_shape, dtype=dtype, buffer_size=buffer_size, tempdir=tempdir)
         self._median_computer: Any = computer
@@ -117,6 +118,7 @@ class MedianComputer:
                 raise ValueError(msg)
             # populate pre-allocated memory with the drizzled data
             self._median_computer[idx] = data
+            self._filled[idx] = True
         else:
             # distribute the drizzled data into the temporary storage
             self._median_computer.add_image(data)
@@ -131,7 +133,11 @@ class MedianComputer:
             The median data computed from the input data.
         """
         if self.in_memory:
-            median_data = nanmedian3D(self._median_computer)
+            cube = self._median_computer
+            if not self._filled.all():
+                # frames without data are uninitialized memory
+                cube = cube[self._filled]
+            median_data = nanmedian3D(cube)
         else:
             median_data = self._median_computer.compute_median()
             self._median_computer.cleanup()
-- 
2.43.0


From 9af7ff1507df1ae16353446be46d80ce7ff34b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 12/33] fix: on-disk median is silently wrong after a read
 error

Without an explicit count numpy.fromfile sizes its result from the file and
returns uninitialized memory for what could not be read.
---
 src/stcal/outlier_detection/median.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index b669c10..f2928f9 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import logging
+import math
 import tempfile
 import warnings
 from pathlib import Path
@@ -224,7 +225,13 @@ class _DiskAppendableArray:
         """
         shp = (self._append_count, *self._slice_shape)
         with Path.open(self._filename, "rb") as f:
-            return np.fromfile(f, dtype=self._dtype).reshape(shp)
+            # without a count fromfile returns uninitialized memory after a read error
+            arr = np.fromfile(f, dtype=self._dtype, count=math.prod(shp))
+            excess = f.read(1)
+        if excess:
+            msg = f"More data than expected in {self._filename}"
+            raise OSError(msg)
+        return arr.reshape(shp)
 
 
 class _OnDiskMedian:
-- 
2.43.0


From 31fe69060cf5edc6e73cca50da7b6ef74ec95012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 13/33] fix: resetting a mosaic keeps models, groups and pixel
 scale ratio from before

---
 src/stcal/resample/resample.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 4315f6f..49c5f59 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -302,6 +302,7 @@ class Resample:
         else:
             self._output_pixel_scale = output_wcs.get("pixel_scale")
             self._pixel_scale_ratio = output_wcs.get("pixel_scale_ratio")
+            self._user_pixel_scale_ratio = self._pixel_scale_ratio
             self._output_wcs = output_wcs.get("wcs")
             self.check_output_wcs(self._output_wcs)
 
@@ -644,7 +645,11 @@ class Resample:
 
         """
         # set up an empty output model (don't allocate arrays at this time):
-        if not hasattr(self, "_output_model") or self.is_finalized():
+        if not hasattr(self, "_output_model") or self.is_finalized() or self._n_res_models:
+            # forget everything about the models added so far:
+            self._n_res_models = 0
+            self._group_ids = []
+            self._pixel_scale_ratio = self._user_pixel_scale_ratio
             self._output_model = self.create_output_model()
 
         if n_input_models is None:
-- 
2.43.0


From 8278d632eebd0da2294a74f087300ac07a170512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 14/33] fix: resampled variances are weighted by the previous
 model's read noise or fail when it is missing

---
 src/stcal/resample/resample.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 49c5f59..a7834b8 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -1146,6 +1146,9 @@ class Resample:
                     **pars,
                 )
                 self._variance_info[varname]["var"] = var
+            else:
+                # do not use the variance of a previous model
+                self._variance_info[varname]["var"] = None
 
         # Set the weight for the image from the weight type
         if self.weight_type.startswith("ivm"):
@@ -1155,6 +1158,9 @@ class Resample:
                 mask = (rn_var > 0) & np.isfinite(rn_var)
                 weight = np.zeros(self.output_array_shape)
                 weight[mask] = np.reciprocal(rn_var[mask])
+            else:
+                # equal weighting when read noise variance is not available
+                weight = np.ones(self.output_array_shape)
 
         elif self.weight_type == "exptime":
             t, _ = get_tmeasure(model)
-- 
2.43.0


From 528f8eb39e4fee72645a626c105d71c61cda9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 15/33] fix: a mosaic is silently wrong after a model or its
 finalization failed part-way

---
 src/stcal/resample/resample.py | 53 +++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index a7834b8..b48318e 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -267,6 +267,10 @@ class Resample:
         self._finalized = False
         self._n_res_models = 0
 
+        # set while the output model is being changed and left set when a
+        # change could not be completed:
+        self._incomplete = False
+
         self._enable_ctx = enable_ctx
         self._enable_var = enable_var
         self._compute_err = compute_err
@@ -645,7 +649,13 @@ class Resample:
 
         """
         # set up an empty output model (don't allocate arrays at this time):
-        if not hasattr(self, "_output_model") or self.is_finalized() or self._n_res_models:
+        if (
+            not hasattr(self, "_output_model")
+            or self._finalized
+            or self._incomplete
+            or self._n_res_models
+        ):
+            self._incomplete = True
             # forget everything about the models added so far:
             self._n_res_models = 0
             self._group_ids = []
@@ -688,6 +698,7 @@ class Resample:
         self.init_time_counters()
 
         self._finalized = False
+        self._incomplete = False
 
     def validate_input_model(self, model):
         """
@@ -782,8 +793,9 @@ class Resample:
                 "to initialize a new output model and associated arrays."
             )
 
+        self._check_complete()
+
         self.validate_input_model(model)
-        self._n_res_models += 1
 
         data = model["data"]
         wcs = model["wcs"]
@@ -792,14 +804,6 @@ class Resample:
         if data.ndim != 2:
             raise RuntimeError(f"Input model '{_get_model_name(model)}' is not a 2D image.")
 
-        # compute pixel scale ratio:
-        #   - this is done only once using the first image
-        #   - this is currently used only to scale error arrays
-        self._compute_pixel_scale_ratio(model)
-
-        iscale = self._get_intensity_scale(model)
-        log.debug(f"Using intensity scale iscale={iscale}")
-
         pixmap = calc_pixmap(
             wcs,
             self.output_model["wcs"],
@@ -824,6 +828,18 @@ class Resample:
 
         xmin, xmax, ymin, ymax = resample_range(data.shape, wcs.bounding_box)
 
+        # from here on the output model changes:
+        self._incomplete = True
+        self._n_res_models += 1
+
+        # compute pixel scale ratio:
+        #   - this is done only once using the first image
+        #   - this is currently used only to scale error arrays
+        self._compute_pixel_scale_ratio(model)
+
+        iscale = self._get_intensity_scale(model)
+        log.debug(f"Using intensity scale iscale={iscale}")
+
         add_image_kwargs = {
             "exptime": model["exposure_time"],
             "pixmap": pixmap,
@@ -890,6 +906,8 @@ class Resample:
             # use resampled error
             self._output_model["err"] = self._driz_error.out_img
 
+        self._incomplete = False
+
     def add_model_hook(self, model, pixmap, pixel_scale_ratio, iscale, weight_map, xmin, xmax, ymin, ymax):
         """Perform additional processing while resampling.
 
@@ -966,7 +984,16 @@ class Resample:
         Indicates whether all attributes of the ``output_model`` have been
         computed from intermediate (running) values.
         """
-        return self._finalized
+        return self._finalized and not self._incomplete
+
+    def _check_complete(self):
+        """Check that the last change of the ``output_model`` was completed."""
+        if self._incomplete:
+            raise RuntimeError(
+                "A previous operation failed and left the resampled output model "
+                "incomplete. Call 'reset_arrays' to initialize a new output model "
+                "and associated arrays."
+            )
 
     def finalize(self):
         """
@@ -984,10 +1011,13 @@ class Resample:
             the output resampled model is not allowed.
 
         """
+        self._check_complete()
+
         if self._finalized:
             # can't finalize twice
             return
 
+        self._incomplete = True
         self._finalized = True
 
         self._output_model["pointings"] = len(self.group_ids)
@@ -1043,6 +1073,7 @@ class Resample:
             del var_components
 
         self.finalize_time_info()
+        self._incomplete = False
         return
 
     def init_variance_arrays(self):
-- 
2.43.0


From 25cf0eb16d418d3273a7c7de7b6a5e35844c9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 16/33] fix: calc_pixmap can leave bounding boxes disabled
 after an error

---
 src/stcal/resample/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stcal/resample/utils.py b/src/stcal/resample/utils.py
index d729335..95b1c33 100644
--- a/src/stcal/resample/utils.py
+++ b/src/stcal/resample/utils.py
@@ -133,12 +133,6 @@ def calc_pixmap(wcs_from, wcs_to, shape=None, disable_bbox="to", stepsize=1, ord
     if shape is None:
         raise ValueError('The "from" WCS must have pixel_shape property set.')
 
-    # temporarily disable the bounding box for the "from" WCS:
-    if disable_bbox in ["from", "both"] and bbox_from is not None:
-        wcs_from.bounding_box = None
-    if disable_bbox in ["to", "both"] and bbox_to is not None:
-        wcs_to.bounding_box = None
-
     # find integer boundaries of of the pixel grid to be computed:
     if bbox_from is None:
         xmin, xmax = 0, shape[1] - 1
@@ -154,6 +148,12 @@ def calc_pixmap(wcs_from, wcs_to, shape=None, disable_bbox="to", stepsize=1, ord
     eff_height = ymax - ymin + 1
 
     try:
+        # temporarily disable the bounding box for the "from" WCS:
+        if disable_bbox in ["from", "both"] and bbox_from is not None:
+            wcs_from.bounding_box = None
+        if disable_bbox in ["to", "both"] and bbox_to is not None:
+            wcs_to.bounding_box = None
+
         if stepsize == 1 or max(eff_width, eff_height) <= 10:
             y, x = np.indices(shape, dtype=np.float64)
             x, y = wcs_to.world_to_pixel_values(*wcs_from.pixel_to_world_values(x, y))
-- 
2.43.0


From 2342e21faef546db158bc09178bcc956914870a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 17/33] fix: a timeout while connecting to the catalog service
 is not reported as a timeout

---
 src/stcal/tweakreg/astrometric_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stcal/tweakreg/astrometric_utils.py b/src/stcal/tweakreg/astrometric_utils.py
index 7b084d7..7293eaf 100644
--- a/src/stcal/tweakreg/astrometric_utils.py
+++ b/src/stcal/tweakreg/astrometric_utils.py
@@ -194,12 +194,13 @@ def get_catalog(
     service_url = f"{SERVICELOCATION}/{service_type}?{spec}"
     try:
         rawcat = requests.get(service_url, headers=headers, timeout=timeout)
+    # ConnectTimeout is both a Timeout and a ConnectionError
+    except requests.exceptions.Timeout as err:
+        raise requests.exceptions.Timeout("The request to the VO API server timed out.") from err
     except requests.exceptions.ConnectionError as err:
         raise requests.exceptions.ConnectionError(
             "Could not connect to the VO API server. Try again later."
         ) from err
-    except requests.exceptions.Timeout as err:
-        raise requests.exceptions.Timeout("The request to the VO API server timed out.") from err
     except requests.exceptions.RequestException as err:
         raise requests.exceptions.RequestException("There was an unexpected error with the request.") from err
     r_contents = rawcat.content.decode()  # convert from bytes to a String
-- 
2.43.0


From 72b32e5ed5ee8e8a3f4ff72f88dc3fdb8f45832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 18/33] fix: the body of an error reply of the catalog service
 is taken as a catalog

---
 src/stcal/tweakreg/astrometric_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stcal/tweakreg/astrometric_utils.py b/src/stcal/tweakreg/astrometric_utils.py
index 7293eaf..862cc61 100644
--- a/src/stcal/tweakreg/astrometric_utils.py
+++ b/src/stcal/tweakreg/astrometric_utils.py
@@ -194,6 +194,7 @@ def get_catalog(
     service_url = f"{SERVICELOCATION}/{service_type}?{spec}"
     try:
         rawcat = requests.get(service_url, headers=headers, timeout=timeout)
+        rawcat.raise_for_status()
     # ConnectTimeout is both a Timeout and a ConnectionError
     except requests.exceptions.Timeout as err:
         raise requests.exceptions.Timeout("The request to the VO API server timed out.") from err
-- 
2.43.0


From 7b4db0eceac2c49c8cd8d41ff3942340fddba6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 19/33] fix: replies of the catalog service that are not
 catalogs are taken as catalogs or file names

---
 src/stcal/tweakreg/astrometric_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stcal/tweakreg/astrometric_utils.py b/src/stcal/tweakreg/astrometric_utils.py
index 862cc61..e7edcf0 100644
--- a/src/stcal/tweakreg/astrometric_utils.py
+++ b/src/stcal/tweakreg/astrometric_utils.py
@@ -206,8 +206,11 @@ def get_catalog(
         raise requests.exceptions.RequestException("There was an unexpected error with the request.") from err
     r_contents = rawcat.content.decode()  # convert from bytes to a String
     if r_contents.startswith("No data records"):
-        r_contents = "\n"
-    catalog = Table.read(r_contents, format="csv", comment="#")
+        return Table()
+    # pass a list of lines: a single line would be taken as the name of a file
+    catalog = Table.read(r_contents.splitlines(), format="csv", comment="#")
+    if not {"ra", "dec"}.issubset(catalog.colnames):
+        raise requests.exceptions.RequestException("The VO API server did not return a catalog.")
     if epoch and catalog:
         # When provided with an epoch gsss returns corrected and non-corrected
         # sources. Filter out the non-corrected ones.
-- 
2.43.0


From 65ab40944a74fc7c784e4fca5c4691bca7cabee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 20/33] fix: the timeout of S3 catalog queries has no effect

---
 src/stcal/tweakreg/_s3_catalog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stcal/tweakreg/_s3_catalog.py b/src/stcal/tweakreg/_s3_catalog.py
index d8539a3..dbc42b7 100644
--- a/src/stcal/tweakreg/_s3_catalog.py
+++ b/src/stcal/tweakreg/_s3_catalog.py
@@ -218,11 +218,15 @@ def get_s3_catalog(
     s3_url = S3_NAMES_TO_CATALOGS[catalog]
 
     # use a thread to allow setting a timeout
-    with concurrent.futures.ThreadPoolExecutor(max_workers=1) as executor:
+    executor = concurrent.futures.ThreadPoolExecutor(max_workers=1)
+    try:
         future = executor.submit(
             _get_hats_sources, s3_url, right_ascension, declination, search_radius, list(COL_NAMES)
         )
         table = future.result(timeout=timeout)
+    finally:
+        # do not wait for a query that timed out
+        executor.shutdown(wait=False)
 
     if epoch:
         table = _correct_for_proper_motion(table, epoch)
-- 
2.43.0


From 5f0b4423d9d38b46c8b8e0ce49898f27a4263eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 21/33] fix: S3 catalog queries can miss sources near the edges
 of healpix pixels

cone_search_lonlat does not return every pixel that a small cone partially
overlaps, so sources inside of the search radius were silently dropped.
---
 src/stcal/tweakreg/_s3_catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/tweakreg/_s3_catalog.py b/src/stcal/tweakreg/_s3_catalog.py
index dbc42b7..e538c9f 100644
--- a/src/stcal/tweakreg/_s3_catalog.py
+++ b/src/stcal/tweakreg/_s3_catalog.py
@@ -80,7 +80,9 @@ def _get_partition_info(uri):
 
 def _cone_search(ra, dec, search_radius, depth):
     hp = HEALPix(nside=2**depth, order="nested")
-    return hp.cone_search_lonlat(ra * u.deg, dec * u.deg, search_radius * u.deg)
+    # cone_search_lonlat can miss pixels that the cone only partially overlaps,
+    # the margin makes sure they are found (sources are filtered later)
+    return hp.cone_search_lonlat(ra * u.deg, dec * u.deg, search_radius * u.deg + hp.pixel_resolution)
 
 
 def _generate_depth_29_ranges(pixels, depth):
-- 
2.43.0


From ca64d3c50ecfc78c2bea74f22fe4c05084a7a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 22/33] fix: ramp fitting goes on after running out of memory

The results of failed steps were ignored, so the fit went on with incomplete
data (median rates, jump magnitudes, optional results), fitted all remaining
pixels, and ended with a SystemError (a result with an exception set).
---
 src/stcal/ramp_fitting/src/slope_fitter.c | 31 +++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 7267993..d69c938 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -497,7 +497,7 @@ get_float3(PyArrayObject *obj, npy_intp integ, npy_intp row, npy_intp col);
 static uint32_t
 get_uint32_2(PyArrayObject *obj, npy_intp row, npy_intp col);
 
-static void
+static int
 get_pixel_ramp(struct pixel_ramp *pr, struct ramp_data *rd, npy_intp row, npy_intp col);
 
 static void
@@ -971,8 +971,11 @@ ERROR:
     clean_rate_product(&rate_prod);
     clean_rateint_product(&rateint_prod);
 
-    /* Return (None, None, None) */
-    result = Py_BuildValue("(OOO)", Py_None, Py_None, Py_None);
+    /* Raise the exception, or return (None, None, None) if there is none */
+    result = NULL;
+    if (!PyErr_Occurred()) {
+        result = Py_BuildValue("(OOO)", Py_None, Py_None, Py_None);
+    }
 
 CLEANUP:
     FREE_RAMP_DATA(rd);
@@ -1051,17 +1054,17 @@ static PyObject *
 build_opt_res(struct ramp_data *rd) /* The ramp fitting data */
 {
     struct opt_res_product opt_res = {0};
-    PyObject *opt_res_info = Py_None;
+    PyObject *opt_res_info = NULL;
 
     /* Make PyObjectArray's */
     if (create_opt_res(&opt_res, rd)) {
-        return Py_None;
+        return NULL;
     }
 
     /* Copy data from rd->segs to these arrays */
     if (save_opt_res(&opt_res, rd)) {
         clean_opt_res(&opt_res);
-        return Py_None;
+        return NULL;
     }
 
     /* Package arrays into output tuple */
@@ -1793,7 +1796,7 @@ get_uint32_2(
  * Integration level flag data is also computed, as well as setting flags
  * to use the 0th frame timing, rather than group time, or use the ZEROFRAME.
  */
-static void
+static int
 get_pixel_ramp(
     struct pixel_ramp *pr, /* Pixel ramp data */
     struct ramp_data *rd,  /* Ramp data */
@@ -1819,7 +1822,9 @@ get_pixel_ramp(
             /* Capture CR magnitudes of optional results product is requested */
             if (rd->save_opt && (group > 0) && (pr->groupdq[idx] & rd->jump)) {
                 crmag = pr->data[idx] - pr->data[idx - 1];
-                cr_list_add(&(pr->crs[integ]), crmag);
+                if (cr_list_add(&(pr->crs[integ]), crmag)) {
+                    return 1;
+                }
             }
             idx++;
         }
@@ -1855,6 +1860,8 @@ get_pixel_ramp(
             pr->rate.dq |= rd->pers;
         }
     }
+
+    return 0;
 }
 
 /*
@@ -2352,6 +2359,7 @@ median_rate_default(
 
             /* Compute the median rate for the integration. */
             if (median_rate_integration(&mrate, int_data, int_dq, rd, pr)) {
+                ret = 1;
                 goto END;
             }
         }
@@ -2562,7 +2570,10 @@ ols_slope_fit_pixels(
     for (row = 0; row < rd->nrows; ++row) {
         for (col = 0; col < rd->ncols; ++col) {
 
-            get_pixel_ramp(pr, rd, row, col);
+            if (get_pixel_ramp(pr, rd, row, col)) {
+                ret = 1;
+                goto END;
+            }
 
             // DBG_PIXEL;
 
@@ -2589,7 +2600,7 @@ ols_slope_fit_pixels(
 
 END:
 
-    return 0;
+    return ret;
 }
 
 /*
-- 
2.43.0


From 51f600b811bbe315176b4aeaed98398b9d932d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 23/33] fix: ramp fitting crashes when an allocation or an
 input is bad

Memory that could not be allocated and inputs that could not be read were
dereferenced, and the ramp data were freed twice for arrays of the wrong type.
---
 src/stcal/ramp_fitting/src/slope_fitter.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index d69c938..75d9619 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -1117,8 +1117,10 @@ clean_pixel_ramp(struct pixel_ramp *pr) /* Ramp fitting data for a pixel. */
     FREE_SEGS_LIST(pr->nints, pr->segs);
 
     /* XXX Clean CR list */
-    for (integ = 0; integ < pr->nints; ++integ) {
-        cr_list_clean(&(pr->crs[integ]));
+    if (pr->crs) {
+        for (integ = 0; integ < pr->nints; ++integ) {
+            cr_list_clean(&(pr->crs[integ]));
+        }
     }
     SET_FREE(pr->crs);
 }
@@ -1155,7 +1157,7 @@ clean_ramp_data(struct ramp_data *rd) /* The ramp fitting data structure */
             }
 
             /* CR list */
-            cr_current = rd->crs[idx];
+            cr_current = rd->crs ? rd->crs[idx] : NULL;
             while (cr_current) {
                 cr_next = cr_current->flink;
                 memset(cr_current, 0, sizeof(*cr_current));
@@ -1560,7 +1562,8 @@ create_pixel_ramp(struct ramp_data *rd) /* The ramp fitting data */
 
     if ((NULL == pr->data) || (NULL == pr->groupdq) || (NULL == pr->rateints) ||
         (NULL == pr->segs) || (NULL == pr->stats) || (NULL == pr->is_zframe) ||
-        (NULL == pr->is_0th) || (NULL == pr->crs)) {
+        (NULL == pr->is_0th) || (NULL == pr->crs) ||
+        ((((PyObject *) rd->orig_gdq) != Py_None) && (NULL == pr->orig_gdq))) {
         snprintf(msg, 255, "Couldn't allocate memory for pixel ramp data structure.");
         err_ols_print("%s\n", msg);
         PyErr_SetString(PyExc_MemoryError, (const char *) msg);
@@ -2064,7 +2067,7 @@ get_ramp_data(PyObject *args) /* The C extension module arguments */
         rd->crs = (struct cr_node **) calloc(rd->cube_sz, sizeof(rd->crs[0]));
         rd->pedestal = (real_t *) calloc(rd->cube_sz, sizeof(rd->pedestal[0]));
 
-        if ((NULL == rd->segs) || (NULL == rd->pedestal)) {
+        if ((NULL == rd->segs) || (NULL == rd->crs) || (NULL == rd->pedestal)) {
             err_ols_print("%s\n", msg);
             PyErr_SetString(PyExc_MemoryError, msg);
             FREE_RAMP_DATA(rd);
@@ -2093,9 +2096,14 @@ get_ramp_data_arrays(
     rd->zframe = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "zeroframe");
     rd->dcurrent = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "average_dark_current");
 
+    /* The caller frees the ramp data structure */
+    if (!rd->data || !rd->groupdq || !rd->orig_gdq || !rd->pixeldq || !rd->zframe ||
+        !rd->dcurrent) {
+        return 1;
+    }
+
     /* Validate numpy array types */
     if (get_ramp_data_new_validate(rd)) {
-        FREE_RAMP_DATA(rd);
         return 1;
     }
 
-- 
2.43.0


From bfab015eed6cefe6eb00afd16c1531cc8a0b4844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 24/33] fix: ramp fitting releases its products twice after a
 failure

The arrays of the products were released where the failure occurred and again
by the clean up at the end, which corrupts memory.
---
 src/stcal/ramp_fitting/src/slope_fitter.c | 29 +++++++++--------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 75d9619..32d24fe 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -1622,13 +1622,7 @@ FAILED_ALLOC:
     err_ols_print("%s\n", msg);
     PyErr_SetString(PyExc_MemoryError, msg);
 
-    Py_XDECREF(rate->slope);
-    Py_XDECREF(rate->dq);
-    Py_XDECREF(rate->var_poisson);
-    Py_XDECREF(rate->var_rnoise);
-    Py_XDECREF(rate->var_err);
-    PyErr_SetString(PyExc_MemoryError, (const char *) msg);
-    err_ols_print("%s\n", msg);
+    clean_rate_product(rate);
 
     return 1;
 }
@@ -1681,13 +1675,7 @@ FAILED_ALLOC:
     PyErr_SetString(PyExc_MemoryError, msg);
     err_ols_print("%s\n", msg);
 
-    Py_XDECREF(rateint->slope);
-    Py_XDECREF(rateint->dq);
-    Py_XDECREF(rateint->var_poisson);
-    Py_XDECREF(rateint->var_rnoise);
-    Py_XDECREF(rateint->var_err);
-    PyErr_SetString(PyExc_MemoryError, (const char *) msg);
-    err_ols_print("%s\n", msg);
+    clean_rateint_product(rateint);
 
     return 1;
 }
@@ -2641,14 +2629,15 @@ package_results(
     struct rateint_product *rateints, /* The rateints product */
     struct ramp_data *rd)             /* The ramp data */
 {
-    PyObject *image_info = Py_None;
-    PyObject *cube_info = Py_None;
-    PyObject *opt_res = Py_None;
-    PyObject *result = Py_None;
+    PyObject *image_info = NULL;
+    PyObject *cube_info = NULL;
+    PyObject *opt_res = NULL;
+    PyObject *result = NULL;
 
     image_info = Py_BuildValue(
         "{s:N,s:N,s:N,s:N,s:N}", "slope", rate->slope, "dq", rate->dq, "var_poisson",
         rate->var_poisson, "var_rnoise", rate->var_rnoise, "err", rate->var_err);
+    memset(rate, 0, sizeof(*rate)); /* The arrays now belong to image_info */
     if (!image_info) {
         goto FAILED_ALLOC;
     }
@@ -2656,6 +2645,7 @@ package_results(
     cube_info = Py_BuildValue(
         "{s:N,s:N,s:N,s:N,s:N}", "slope", rateints->slope, "dq", rateints->dq, "var_poisson",
         rateints->var_poisson, "var_rnoise", rateints->var_rnoise, "err", rateints->var_err);
+    memset(rateints, 0, sizeof(*rateints)); /* The arrays now belong to cube_info */
     if (!cube_info) {
         goto FAILED_ALLOC;
     }
@@ -2665,6 +2655,9 @@ package_results(
         if (!opt_res) {
             goto FAILED_ALLOC;
         }
+    } else {
+        Py_INCREF(Py_None);
+        opt_res = Py_None;
     }
 
     result = Py_BuildValue("(NNN)", image_info, cube_info, opt_res);
-- 
2.43.0


From 17c22111a4fc208a0f9fc8fb6e5b710ef0c70369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 25/33] fix: ramp fitting goes on when its settings cannot be
 read

A setting that could not be read was taken as -1, and the fit went on to the
end before the error was reported.
---
 src/stcal/ramp_fitting/src/slope_fitter.c | 32 ++++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 32d24fe..6005ad6 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -579,6 +579,9 @@ py_ramp_data_get_float(PyObject *rd, const char *attr);
 static int
 py_ramp_data_get_int(PyObject *rd, const char *attr);
 
+static PyObject *
+py_ramp_data_get_optional(PyObject *rd, const char *attr);
+
 static int
 ramp_fit_pixel(struct ramp_data *rd, struct pixel_ramp *pr);
 
@@ -2043,6 +2046,10 @@ get_ramp_data(PyObject *args) /* The C extension module arguments */
 
     /* Void function */
     get_ramp_data_meta(Py_ramp_data, rd);
+    if (PyErr_Occurred()) {
+        FREE_RAMP_DATA(rd);
+        goto END;
+    }
 
     /* One time computations. */
     rd->effintim = (rd->nframes + rd->groupgap) * rd->frame_time;
@@ -2118,7 +2125,7 @@ get_ramp_data_meta(
     rd->nframes = py_ramp_data_get_int(Py_ramp_data, "nframes");
     rd->suppress1g = py_ramp_data_get_int(Py_ramp_data, "suppress_one_group_ramps");
 
-    test = PyObject_GetAttrString(Py_ramp_data, "drop_frames1");
+    test = py_ramp_data_get_optional(Py_ramp_data, "drop_frames1");
     if (!test || (test == Py_None)) {
         rd->dropframes = 0;
     } else {
@@ -2136,7 +2143,7 @@ get_ramp_data_meta(
     rd->ngval = py_ramp_data_get_int(Py_ramp_data, "flags_no_gain_val");
     rd->uslope = py_ramp_data_get_int(Py_ramp_data, "flags_unreliable_slope");
 
-    test = PyObject_GetAttrString(Py_ramp_data, "flags_chargeloss");
+    test = py_ramp_data_get_optional(Py_ramp_data, "flags_chargeloss");
     if (!test || (test == Py_None)) {
         rd->chargeloss = 0;
     } else {
@@ -2144,7 +2151,7 @@ get_ramp_data_meta(
     }
     Py_XDECREF(test);
 
-    test = PyObject_GetAttrString(Py_ramp_data, "start_row");
+    test = py_ramp_data_get_optional(Py_ramp_data, "start_row");
     if (!test || (test == Py_None)) {
         rd->start_row = 0;
     } else {
@@ -2152,7 +2159,7 @@ get_ramp_data_meta(
     }
     Py_XDECREF(test);
 
-    test = PyObject_GetAttrString(Py_ramp_data, "num_rows");
+    test = py_ramp_data_get_optional(Py_ramp_data, "num_rows");
     if (!test || (test == Py_None)) {
         rd->num_rows = 0;
     } else {
@@ -2784,6 +2791,23 @@ py_ramp_data_get_int(
     return val;
 }
 
+/*
+ * Get an attribute of the ramp_data class that may be missing.
+ */
+static PyObject *
+py_ramp_data_get_optional(
+    PyObject *rd,     /* The RampData class */
+    const char *attr) /* The attribute to get from the class */
+{
+    PyObject *Obj = PyObject_GetAttrString(rd, attr);
+
+    if (!Obj && PyErr_ExceptionMatches(PyExc_AttributeError)) {
+        PyErr_Clear();
+    }
+
+    return Obj;
+}
+
 #define DBG_RATE_INFO                                                                      \
     do {                                                                                   \
         dbg_ols_print("(%ld, %ld) median rate = %f\n", pr->row, pr->col, pr->median_rate); \
-- 
2.43.0


From 01374e6b846052f1e8883065f2c953399bb22549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 26/33] fix: ramp fitting loses the exception when reading its
 settings fails

Getting further attributes after one failed can clear the exception, so that
the fit went on with wrong settings or returned None for every product.
---
 src/stcal/ramp_fitting/src/slope_fitter.c | 50 +++++++++++++++++------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 6005ad6..a632c32 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -573,6 +573,9 @@ package_results(struct rate_product *rate, struct rateint_product *rateints, str
 static void
 prune_segment_list(struct segment_list *segs);
 
+static PyObject *
+py_ramp_data_get_attr(PyObject *rd, const char *attr);
+
 static float
 py_ramp_data_get_float(PyObject *rd, const char *attr);
 
@@ -2084,12 +2087,12 @@ get_ramp_data_arrays(
     struct ramp_data *rd)   /* The ramp data */
 {
     /* Get numpy arrays */
-    rd->data = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "data");
-    rd->groupdq = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "groupdq");
-    rd->orig_gdq = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "orig_gdq");
-    rd->pixeldq = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "pixeldq");
-    rd->zframe = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "zeroframe");
-    rd->dcurrent = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "average_dark_current");
+    rd->data = (PyArrayObject *) py_ramp_data_get_attr(Py_ramp_data, "data");
+    rd->groupdq = (PyArrayObject *) py_ramp_data_get_attr(Py_ramp_data, "groupdq");
+    rd->orig_gdq = (PyArrayObject *) py_ramp_data_get_attr(Py_ramp_data, "orig_gdq");
+    rd->pixeldq = (PyArrayObject *) py_ramp_data_get_attr(Py_ramp_data, "pixeldq");
+    rd->zframe = (PyArrayObject *) py_ramp_data_get_attr(Py_ramp_data, "zeroframe");
+    rd->dcurrent = (PyArrayObject *) py_ramp_data_get_attr(Py_ramp_data, "average_dark_current");
 
     /* The caller frees the ramp data structure */
     if (!rd->data || !rd->groupdq || !rd->orig_gdq || !rd->pixeldq || !rd->zframe ||
@@ -2753,6 +2756,22 @@ prune_segment_list(struct segment_list *segs) /* Linked list of segments */
     }
 }
 
+/*
+ * Get an attribute of the ramp_data class.  Once getting one has failed, no more
+ * are asked for, since that can clear the exception that was raised.
+ */
+static PyObject *
+py_ramp_data_get_attr(
+    PyObject *rd,     /* The RampData class */
+    const char *attr) /* The attribute to get from the class */
+{
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+
+    return PyObject_GetAttrString(rd, attr);
+}
+
 /*
  * Get a float value from an attribute of the ramp_data class defined in
  * ramp_fit_class.
@@ -2765,9 +2784,12 @@ py_ramp_data_get_float(
     PyObject *Obj;
     float val;
 
-    Obj = PyObject_GetAttrString(rd, attr);
+    Obj = py_ramp_data_get_attr(rd, attr);
+    if (!Obj) {
+        return 0.;
+    }
     val = (float) PyFloat_AsDouble(Obj);
-    Py_XDECREF(Obj);
+    Py_DECREF(Obj);
 
     return val;
 }
@@ -2784,9 +2806,12 @@ py_ramp_data_get_int(
     PyObject *Obj;
     int val;
 
-    Obj = PyObject_GetAttrString(rd, attr);
+    Obj = py_ramp_data_get_attr(rd, attr);
+    if (!Obj) {
+        return 0;
+    }
     val = (int) PyLong_AsLong(Obj);
-    Py_XDECREF(Obj);
+    Py_DECREF(Obj);
 
     return val;
 }
@@ -2799,9 +2824,10 @@ py_ramp_data_get_optional(
     PyObject *rd,     /* The RampData class */
     const char *attr) /* The attribute to get from the class */
 {
-    PyObject *Obj = PyObject_GetAttrString(rd, attr);
+    int failed = (NULL != PyErr_Occurred());
+    PyObject *Obj = py_ramp_data_get_attr(rd, attr);
 
-    if (!Obj && PyErr_ExceptionMatches(PyExc_AttributeError)) {
+    if (!Obj && !failed && PyErr_ExceptionMatches(PyExc_AttributeError)) {
         PyErr_Clear();
     }
 
-- 
2.43.0


From 8efff0f4db2861676ecb5bd85f8e4af6c7b489fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 27/33] fix: ramp fitting with jump detection crashes when an
 allocation fails

Vectors were returned by copying them, and the exception that a failing
allocation throws there is caught by nothing, which ends the process.
---
 src/stcal/ramp_fitting/ols_cas22/_jump.pyx | 4 +++-
 src/stcal/ramp_fitting/ols_cas22/_ramp.pyx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22/_jump.pyx b/src/stcal/ramp_fitting/ols_cas22/_jump.pyx
index 7ec7176..859c4a9 100644
--- a/src/stcal/ramp_fitting/ols_cas22/_jump.pyx
+++ b/src/stcal/ramp_fitting/ols_cas22/_jump.pyx
@@ -57,6 +57,7 @@ fit_jumps : function
 from cython cimport boundscheck, cdivision, wraparound
 from libc.math cimport NAN, fmaxf, isnan, log10, sqrtf
 from libcpp cimport bool
+from libcpp.utility cimport move
 
 from stcal.ramp_fitting.ols_cas22._jump cimport JUMP_DET, FixedOffsets, JumpFits, PixelOffsets, Thresh
 from stcal.ramp_fitting.ols_cas22._ramp cimport RampFit, RampIndex, RampQueue, fit_ramp, init_ramps
@@ -592,4 +593,5 @@ cdef inline JumpFits fit_jumps(float[:] resultants,
     # Multiply poisson term by flux, (no negative fluxes)
     ramp_fits.average.poisson_var *= max(ramp_fits.average.slope, 0)
 
-    return ramp_fits
+    # Copying could throw an exception that nothing catches
+    return move(ramp_fits)
diff --git a/src/stcal/ramp_fitting/ols_cas22/_ramp.pyx b/src/stcal/ramp_fitting/ols_cas22/_ramp.pyx
index 481a9e3..62fb081 100644
--- a/src/stcal/ramp_fitting/ols_cas22/_ramp.pyx
+++ b/src/stcal/ramp_fitting/ols_cas22/_ramp.pyx
@@ -54,6 +54,7 @@ import numpy as np
 cimport numpy as cnp
 from cython cimport boundscheck, cdivision, cpow, wraparound
 from libc.math cimport INFINITY, NAN, fabs, fmaxf, sqrt
+from libcpp.utility cimport move
 from libcpp.vector cimport vector
 
 from stcal.ramp_fitting.ols_cas22._ramp cimport RampFit, RampIndex, RampQueue, ReadPattern
@@ -201,7 +202,8 @@ cpdef inline RampQueue init_ramps(int[:] dq, int n_resultants):
         ramp.end = n_resultants - 1
         ramps.push_back(ramp)
 
-    return ramps
+    # Copying could throw an exception that nothing catches
+    return move(ramps)
 
 # Keeps the static type checker/highlighter happy this has no actual effect
 ctypedef float[6] _row
-- 
2.43.0


From e52d50bc47fe834108a709b47106a2faf3c241ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 28/33] fix: ramp fitting rescales the caller's read noise

---
 src/stcal/ramp_fitting/ramp_fit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stcal/ramp_fitting/ramp_fit.py b/src/stcal/ramp_fitting/ramp_fit.py
index a65dd3f..fe999e0 100644
--- a/src/stcal/ramp_fitting/ramp_fit.py
+++ b/src/stcal/ramp_fitting/ramp_fit.py
@@ -263,6 +263,7 @@ def ramp_fit_data(ramp_data, save_opt, readnoise_2d, gain_2d, algorithm, weighti
         # Get readnoise array for calculation of variance of noiseless ramps, and
         #   gain array in case optimal weighting is to be done
         nframes = ramp_data.nframes
+        readnoise_2d = readnoise_2d.copy()  # The caller's array is left as it is.
         readnoise_2d *= gain_2d / np.sqrt(2.0 * nframes)
 
         # Suppress one group ramps, if desired.
-- 
2.43.0


From ac4ed0724758f40f40462485407bb6efdcc1e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 29/33] fix: linearity correction changes the caller's
 coefficients

---
 src/stcal/linearity/linearity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/linearity/linearity.py b/src/stcal/linearity/linearity.py
index 866982c..a44a6e9 100644
--- a/src/stcal/linearity/linearity.py
+++ b/src/stcal/linearity/linearity.py
@@ -351,6 +351,9 @@ def prepare_coefficients(coeffs, lin_dq, pdq, dqflags):
     # Combine the DQ arrays using bitwise_or
     new_pdq = np.bitwise_or(pdq, lin_dq)
 
+    # The caller's coefficients are left as they are.
+    coeffs = coeffs.copy()
+
     # Check for NO_LIN_CORR flags in the DQ extension of the ref file
     coeffs = correct_for_flag(coeffs, lin_dq, dqflags)
 
-- 
2.43.0


From 8598db12e3852d239eef8d9d43df93b066c8d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 30/33] fix: the caller's read noise and gain are byteswapped
 while a ramp is fitted

---
 src/stcal/ramp_fitting/ols_fit.py | 37 ++++++++++---------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 82d7a03..a1cbbc5 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -567,7 +567,7 @@ def ols_ramp_fit_single(ramp_data, save_opt, readnoise_2d, gain_2d, weighting):
     """
     c_start = time.time()
 
-    ramp_data, gain_2d, readnoise_2d, bswap = endianness_handler(ramp_data, gain_2d, readnoise_2d)
+    ramp_data, gain_2d, readnoise_2d = endianness_handler(ramp_data, gain_2d, readnoise_2d)
 
     if ramp_data.drop_frames1 is None:
         ramp_data.drop_frames1 = 0
@@ -577,17 +577,6 @@ def ols_ramp_fit_single(ramp_data, save_opt, readnoise_2d, gain_2d, weighting):
 
     c_end = time.time()
 
-    # Read noise is used after STCAL ramp fitting for the CHARGELOSS
-    # processing, so make sure it works right for there.  In other words
-    # if they got byteswapped for the C extension, they need to be
-    # byteswapped back to properly work in python once returned from
-    # ramp fitting.
-    rn_bswap, gain_bswap = bswap
-    if rn_bswap:
-        readnoise_2d.view(readnoise_2d.dtype.newbyteorder("S")).byteswap(inplace=True)
-    if gain_bswap:
-        gain_2d.view(gain_2d.dtype.newbyteorder("S")).byteswap(inplace=True)
-
     c_diff = c_end - c_start
     log.info(f"Ramp Fitting C Time: {c_diff}")
 
@@ -615,12 +604,10 @@ def handle_array_endianness(arr, sys_order):
         The ndarray in the correct byte order
     """
     arr_order = arr.dtype.byteorder
-    bswap = False
     if (arr_order == ">" and sys_order == "<") or (arr_order == "<" and sys_order == ">"):
         arr.view(arr.dtype.newbyteorder("S")).byteswap(inplace=True)
-        bswap = True
 
-    return arr, bswap
+    return arr
 
 
 def endianness_handler(ramp_data, gain_2d, readnoise_2d):
@@ -657,18 +644,18 @@ def endianness_handler(ramp_data, gain_2d, readnoise_2d):
     """
     sys_order = "<" if sys.byteorder == "little" else ">"
 
-    # If the gain and/or readnoise arrays are byteswapped before going
-    # into the C extension, then that needs to be noted and byteswapped
-    # when returned from the C extension.
-    gain_2d, gain_bswap = handle_array_endianness(gain_2d, sys_order)
-    readnoise_2d, rn_bswap = handle_array_endianness(readnoise_2d, sys_order)
+    # The gain and the read noise are used after STCAL ramp fitting (for the
+    # CHARGELOSS processing and for other exposures), so the caller's arrays
+    # are not byteswapped, even for as long as the fit takes.
+    gain_2d = handle_array_endianness(gain_2d.copy(), sys_order)
+    readnoise_2d = handle_array_endianness(readnoise_2d.copy(), sys_order)
 
-    ramp_data.data, _ = handle_array_endianness(ramp_data.data, sys_order)
-    ramp_data.average_dark_current, _ = handle_array_endianness(ramp_data.average_dark_current, sys_order)
-    ramp_data.groupdq, _ = handle_array_endianness(ramp_data.groupdq, sys_order)
-    ramp_data.pixeldq, _ = handle_array_endianness(ramp_data.pixeldq, sys_order)
+    ramp_data.data = handle_array_endianness(ramp_data.data, sys_order)
+    ramp_data.average_dark_current = handle_array_endianness(ramp_data.average_dark_current, sys_order)
+    ramp_data.groupdq = handle_array_endianness(ramp_data.groupdq, sys_order)
+    ramp_data.pixeldq = handle_array_endianness(ramp_data.pixeldq, sys_order)
 
-    return ramp_data, gain_2d, readnoise_2d, (rn_bswap, gain_bswap)
+    return ramp_data, gain_2d, readnoise_2d
 
 
 def discard_miri_groups(ramp_data):
-- 
2.43.0


From 72ed8890401aecda5776fda8f2ccdd87ebd2b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 31/33] fix: dark subtraction zeroes NaNs in the caller's dark,
 from which longer exposures are extrapolated

---
 src/stcal/dark_current/dark_sub.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stcal/dark_current/dark_sub.py b/src/stcal/dark_current/dark_sub.py
index d792ef0..2ba0ccd 100644
--- a/src/stcal/dark_current/dark_sub.py
+++ b/src/stcal/dark_current/dark_sub.py
@@ -127,7 +127,10 @@ def do_correction_data(science_data, dark_data, dark_output=None):
         out_data = copy.deepcopy(science_data)
         return out_data, None
 
-    # Replace NaN's in the dark with zeros
+    # Replace NaN's in the dark with zeros, but not in the caller's dark,
+    # which may be extrapolated for other exposures
+    dark_data = copy.copy(dark_data)
+    dark_data.data = dark_data.data.copy()
     dark_data.data[np.isnan(dark_data.data)] = 0.0
 
     # Check whether the dark and science data have matching
-- 
2.43.0


From e458cc78d3a045f59b3e984f8cd46aa81a0de660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 32/33] fix: an interrupted extrapolation leaves the dark empty

---
 src/stcal/dark_current/dark_sub.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stcal/dark_current/dark_sub.py b/src/stcal/dark_current/dark_sub.py
index 2ba0ccd..768bd9b 100644
--- a/src/stcal/dark_current/dark_sub.py
+++ b/src/stcal/dark_current/dark_sub.py
@@ -426,10 +426,11 @@ def extrapolate_dark(dark_data, ngroups):
 
     if len(dark_data.data.shape) == 4:
         nints, init_groups, nx, ny = dark_data.data.shape
-        tmp_dark = dark_data.data
-        dark_data.data = np.full((nints, init_groups + ngroups, nx, ny), np.nan)
+        new_dark = np.full((nints, init_groups + ngroups, nx, ny), np.nan)
         for i in range(nints):
-            dark_data.data[i] = _extrapolate_int(tmp_dark[i], ngroups)
+            new_dark[i] = _extrapolate_int(dark_data.data[i], ngroups)
+        # Only a complete extrapolation may replace the data
+        dark_data.data = new_dark
     else:
         dark_data.data = _extrapolate_int(dark_data.data, ngroups)
 
-- 
2.43.0


From 00e34f86d5470d676123eef02e8b86ea8cb92e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 33/33] fix: the likelihood fit with a zero frame changes the
 caller's read pattern

---
 src/stcal/ramp_fitting/likely_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 978f1dc..7c1d4b0 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -371,7 +371,7 @@ def get_readtimes(ramp_data):
         A list of frame times for each frame used in the computation of the ramp.
     """
     if ramp_data.read_pattern is not None:
-        return ramp_data.read_pattern
+        return list(ramp_data.read_pattern)
 
     ngroups = ramp_data.data.shape[1]
     tot_frames = ramp_data.nframes + ramp_data.groupgap
-- 
2.43.0

