From 87adf01589daa09e2f1c131d710779a830841ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:25 +0000
Subject: [PATCH 01/28] fix: normalize_data overflowed for integer images and
 missed already normalized data

---
 src/viqa/utils/loading.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ba93da4..8010cf5 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -850,8 +850,9 @@ def normalize_data(
         raise ValueError("Data type not supported")
 
     # Check if data is already normalized
-    if info.max is not data_range_output[1] or info.min is not data_range_output[0]:
-        # Normalize data
+    if info.max != data_range_output[1] or info.min != data_range_output[0]:
+        # Normalize data in floating point, integer types would overflow
+        img = img.astype(np.float64)
         if automatic_data_range:
             img_min = np.min(img)  # Get minimum value of numpy array
             img_max = np.max(img)  # Get maximum value of numpy array
@@ -866,8 +867,8 @@ def normalize_data(
         # Normalize numpy array
         img = (
             (img - img_min)
-            * (data_range_output[1] - data_range_output[0])
             / (img_max - img_min)
+            * (data_range_output[1] - data_range_output[0])
         ) + data_range_output[0]
 
         # Change data type
-- 
2.43.0


From ac94640958d21ed7044fce4485a656c444a60c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:25 +0000
Subject: [PATCH 02/28] fix: crop_image rejected RGB images and crops that keep
 a full axis

---
 src/viqa/utils/loading.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 8010cf5..9a79fb2 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -933,22 +933,23 @@ def crop_image(
 
     if img.ndim == 2 or (img.ndim == 3 and img.shape[-1] == 3):  # If image is 2D
         crop_shape = np.array((x[1] - x[0], y[1] - y[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
+        img_shape = img_shape[:2]  # Color channels are never cropped
+        if (crop_shape == img_shape).all():  # If image is already cropped
+            warn("Image is already cropped.", RuntimeWarning)
+            img_crop = img
+        elif (crop_shape <= img_shape).all():  # If cropping fits into original image
             if z is not None:
                 warn("Image is 2D. Parameter z will be ignored.", RuntimeWarning)
             img_crop = img[x[0] : x[1], y[0] : y[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
-            warn("Image is already cropped.", RuntimeWarning)
-            img_crop = img
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     elif img.ndim == 3 and z is not None:  # If image is 3D
         crop_shape = np.array((x[1] - x[0], y[1] - y[0], z[1] - z[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
-            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
+        if (crop_shape == img_shape).all():  # If image is already cropped
             warn("Image is already cropped.", RuntimeWarning)
             img_crop = img
+        elif (crop_shape <= img_shape).all():  # If cropping fits into original image
+            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     else:  # If image is not 2D or 3D
-- 
2.43.0


From 27010873a9478c7f074e6a1907f6575f34ef925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:41 +0000
Subject: [PATCH 03/28] fix: UQI ignored its zero stabilisation constants

---
 src/viqa/fr_metrics/uqi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/uqi.py b/src/viqa/fr_metrics/uqi.py
index 8b567cf..fcd2520 100644
--- a/src/viqa/fr_metrics/uqi.py
+++ b/src/viqa/fr_metrics/uqi.py
@@ -155,8 +155,8 @@ class UQI(FullReferenceMetricsInterface):
             img_r,
             img_m,
             data_range=self.parameters["data_range"],
-            k_1=0,
-            k_2=0,
+            K1=0,
+            K2=0,
             alpha=1,
             beta=1,
             gamma=1,
-- 
2.43.0


From 0459fafadff60cb9ba170d19691fec54ca574797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:12 +0000
Subject: [PATCH 04/28] fix: FSIM, MS-SSIM, VIFp and VSI ignored dim when
 scoring full volumes

---
 src/viqa/fr_metrics/fsim.py   | 8 ++++++--
 src/viqa/fr_metrics/msssim.py | 8 ++++++--
 src/viqa/fr_metrics/vif.py    | 8 ++++++--
 src/viqa/fr_metrics/vsi.py    | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/viqa/fr_metrics/fsim.py b/src/viqa/fr_metrics/fsim.py
index 7809db6..23e524e 100644
--- a/src/viqa/fr_metrics/fsim.py
+++ b/src/viqa/fr_metrics/fsim.py
@@ -238,13 +238,17 @@ class FSIM(FullReferenceMetricsInterface):
             elif (
                 dim is not None and im_slice is None
             ):  # if dim is given, but im_slice is not, calculate FSIM for full volume
+                if dim not in (0, 1, 2):
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
                 warn(
                     "im_slice is not given. Calculating FSIM for full volume.",
                     RuntimeWarning,
                 )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, 2),
+                    np.moveaxis(img_m, dim, 2),
                     self.parameters["chromatic"],
                 )
                 score_val = fsim(
diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index ae20403..9a0d7f4 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -241,13 +241,17 @@ class MSSSIM(FullReferenceMetricsInterface):
                 dim is not None and im_slice is None
             ):  # if dim is given, but im_slice is not, calculate MS-SSIM for full
                 # volume
+                if dim not in (0, 1, 2):
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
                 warn(
                     "im_slice is not given. Calculating MS-SSIM for full volume.",
                     RuntimeWarning,
                 )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, 2),
+                    np.moveaxis(img_m, dim, 2),
                     self.parameters["chromatic"],
                 )
                 score_val = multi_scale_ssim(
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index c2e1b42..2a36230 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -214,13 +214,17 @@ class VIFp(FullReferenceMetricsInterface):
             elif (
                 dim is not None and im_slice is None
             ):  # if dim is given, but im_slice is not, calculate VIFp for full volume
+                if dim not in (0, 1, 2):
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
                 warn(
                     "im_slice is not given. Calculating VIFp for full volume.",
                     RuntimeWarning,
                 )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, 2),
+                    np.moveaxis(img_m, dim, 2),
                     self.parameters["chromatic"],
                 )
                 score_val = vif_p(
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index c862272..d15ecf5 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -235,13 +235,17 @@ class VSI(FullReferenceMetricsInterface):
             elif (
                 dim is not None and im_slice is None
             ):  # if dim is given, but im_slice is not, calculate VSI for full volume
+                if dim not in (0, 1, 2):
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
                 warn(
                     "im_slice is not given. Calculating VSI for full volume.",
                     RuntimeWarning,
                 )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, 2),
+                    np.moveaxis(img_m, dim, 2),
                     self.parameters["chromatic"],
                 )
                 score_val = vsi(
-- 
2.43.0


From 2359e3e8626496bdc590c2d859d7f17ca4ecf466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:31 +0000
Subject: [PATCH 05/28] fix: VSI treated color images as 3D volumes

---
 src/viqa/fr_metrics/vsi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index d15ecf5..7268114 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -186,7 +186,7 @@ class VSI(FullReferenceMetricsInterface):
         """
         img_r, img_m = self.load_images(img_r, img_m)
 
-        if img_r.ndim == 3:
+        if img_r.ndim == 3 and img_r.shape[-1] != 3:  # if image is 3D
             if (
                 dim is not None and type(im_slice) is int
             ):  # if dim and im_slice are given
@@ -260,7 +260,7 @@ class VSI(FullReferenceMetricsInterface):
                 raise ValueError(
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
-        elif img_r.ndim == 2:
+        elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
             if dim or im_slice:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VSI for 2D images
-- 
2.43.0


From dcba40e76edfdf9dd4c6a0d3cac74c2b5ae98667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:31 +0000
Subject: [PATCH 06/28] fix: print_score of MS-SSIM, VIFp and VSI did not issue
 the documented warning

---
 src/viqa/fr_metrics/msssim.py | 2 +-
 src/viqa/fr_metrics/vif.py    | 2 +-
 src/viqa/fr_metrics/vsi.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index 9a0d7f4..46f371c 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -303,4 +303,4 @@ class MSSSIM(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("MS-SSIM: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for MS-SSIM. Run score() first.")
+            warn("No score value for MS-SSIM. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index 2a36230..ee61401 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -276,4 +276,4 @@ class VIFp(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VIFp: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VIFp. Run score() first.")
+            warn("No score value for VIFp. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 7268114..bdb8a54 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -297,4 +297,4 @@ class VSI(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VSI: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VSI. Run score() first.")
+            warn("No score value for VSI. Run score() first.", RuntimeWarning)
-- 
2.43.0


From 140f65aaa1389f0e6ab8db1dbcecbb4cd32cd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:31 +0000
Subject: [PATCH 07/28] fix: RGB to YUV conversion used the transposed matrix

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f897d97..f59be64 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -46,7 +46,7 @@ def _rgb_to_yuv(img):
             [0.615, -0.55861, -0.05639],
         ]
     )
-    img_yuv = img @ weights
+    img_yuv = img @ weights.T
     return img_yuv
 
 
-- 
2.43.0


From 852284aa6d0b50a62b8f3f0e551c6554d552de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:48 +0000
Subject: [PATCH 08/28] fix: SNR returned its parameters with the score and had
 no name

---
 src/viqa/nr_metrics/snr.py | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 9b54718..0cb812f 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -106,6 +106,7 @@ class SNR(NoReferenceMetricsInterface):
         super().__init__(
             data_range=data_range, normalize=normalize, name=name, **kwargs
         )
+        self._name = name
 
     def score(self, img, **kwargs):
         """Calculate the signal-to-noise ratio (SNR) for an image.
@@ -1098,27 +1099,4 @@ def signal_to_noise_ratio(
     else:
         snr_val = np.mean(signal) / np.std(signal)
 
-    parameters = {}
-    match region_type:
-        case "full" if auto_center:
-            parameters.update(
-                {
-                    "iterations": iterations,
-                    "lower_threshold": lower_threshold,
-                    "upper_threshold": upper_threshold,
-                }
-            )
-        case "full" if not auto_center:
-            region_type = "original"
-        case "original":
-            pass
-        case _:
-            parameters.update(
-                {
-                    "signal_center": signal_center,
-                    "radius": radius,
-                }
-            )
-    parameters.update({"region_type": region_type, "signal": signal})
-
-    return np.float64(snr_val), parameters
+    return np.float64(snr_val)
-- 
2.43.0


From 5d7fbaaaa36f352cc9a81bd98702009642f5a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:48 +0000
Subject: [PATCH 09/28] fix: cubic regions failed for RGB images

---
 src/viqa/utils/misc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f59be64..f57fadd 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -622,9 +622,6 @@ def _to_cubic(img, center, radius):
             center[0] - radius : center[0] + radius,
             center[1] - radius : center[1] + radius,
         ] = 1
-
-        if img.ndim == 3:  # 2D color image
-            mask = np.repeat(mask[:, :, np.newaxis], 3, axis=2)
     elif img.ndim == 3 and img.shape[-1] > 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
-- 
2.43.0


From 611482b52e6e7bbac52e4ad2c9268f1224b32d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:15 +0000
Subject: [PATCH 10/28] fix: SNR and CNR silently truncated regions reaching
 over the far borders

---
 src/viqa/nr_metrics/cnr.py | 9 +++++----
 src/viqa/nr_metrics/snr.py | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 430095f..94f2b60 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -795,18 +795,19 @@ def contrast_to_noise_ratio(
 
     # check if signal_center and background_center are tuples of integers and radius is
     # an integer
-    for center in signal_center:
+    for center, size in zip(signal_center, img.shape, strict=False):
         if not isinstance(center, int):
             raise TypeError("Signal center has to be a tuple of integers.")
-        if abs(center) - radius < 0:  # check if center is too close to the border
+        # check if center is too close to the border
+        if abs(center) - radius < 0 or abs(center) + radius > size:
             raise ValueError(
                 "Signal center has to be at least the radius away from the border."
             )
 
-    for center in background_center:
+    for center, size in zip(background_center, img.shape, strict=False):
         if not isinstance(center, int):
             raise TypeError("Background center has to be a tuple of integers.")
-        if abs(center) - radius < 0:
+        if abs(center) - radius < 0 or abs(center) + radius > size:
             raise ValueError(
                 "Background center has to be at least the radius away from the border."
             )
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 0cb812f..cad3b49 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1019,10 +1019,11 @@ def signal_to_noise_ratio(
             signal = img
 
     # Check if signal_center is a tuple of integers and radius is an integer
-    for center in signal_center:
+    for center, size in zip(signal_center, img.shape, strict=False):
         if not isinstance(center, int):
             raise TypeError("Center has to be a tuple of integers.")
-        if abs(center) - radius < 0:  # check if center is too close to the border
+        # check if center is too close to the border
+        if abs(center) - radius < 0 or abs(center) + radius > size:
             raise ValueError(
                 "Center has to be at least the radius away from the border."
             )
-- 
2.43.0


From e066339a51a988bd76e9cc1d0717babaa30dab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:48 +0000
Subject: [PATCH 11/28] fix: export_results overwrote the score of metrics
 without a score

---
 src/viqa/utils/export.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index e2d0dd9..8e903cf 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -94,11 +94,12 @@ def export_results(metrics, output_path, filename, return_dict=False):
         writer = csv.writer(f)
         writer.writerow(["Metric", "Value"])
         for metric in metrics:
-            if metric.score_val is None:
-                metric.score_val = "n/a"
+            value = metric.score_val
+            if value is None:
+                value = "n/a"
             else:
-                writer.writerow([metric._name, metric.score_val])
-            results_dict[metric._name] = metric.score_val
+                writer.writerow([metric._name, value])
+            results_dict[metric._name] = value
     if return_dict:
         return results_dict
 
-- 
2.43.0


From 12fc87bee6e3ed413390d6e1494834f229dd51d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:48 +0000
Subject: [PATCH 12/28] fix: load_mhd dropped the last header line without a
 trailing newline

---
 src/viqa/utils/loading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 9a79fb2..4c635fd 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -435,7 +435,8 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
     # Create dictionary from lines
     file_header = {
         key: value
-        for line in file_header_txt[0:-1]
+        for line in file_header_txt
+        if " = " in line
         for key, value in [line.split(" = ")]
     }
 
-- 
2.43.0


From 61e87984815665e2f546f9e57849faa92f4d4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:48 +0000
Subject: [PATCH 13/28] fix: MAD misplaced block statistics unless the image
 side is a multiple of the stride

---
 src/viqa/fr_metrics/mad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 8443af2..ce233d5 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -646,8 +646,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - STRIDE * 3, STRIDE):
-        for y in range(0, i_org.shape[1] - STRIDE * 3, STRIDE):
+    for x in range(0, i_org.shape[0] - (BLOCK_SIZE - 1), STRIDE):
+        for y in range(0, i_org.shape[1] - (BLOCK_SIZE - 1), STRIDE):
             mu_org[x : x + STRIDE, y : y + STRIDE] = mu_org_p[block_n]
             std_err[x : x + STRIDE, y : y + STRIDE] = std_err_p[block_n]
             block_n += 1
-- 
2.43.0


From 1fc805e0451143c0b3c8573979e2b3e949878113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:48 +0000
Subject: [PATCH 14/28] fix: MAD normalised the weights of the caller in place

---
 src/viqa/fr_metrics/mad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index ce233d5..b594749 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -740,7 +740,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
-    weights /= np.sum(weights)
+    weights = np.asarray(weights) / np.sum(weights)
     if len(weights) != scales_num:
         raise ValueError(f"weights must be of length scales_num ({scales_num}).")
 
-- 
2.43.0


From be398b48aaddd6fd16790ea9d806bc53c800290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:48 +0000
Subject: [PATCH 15/28] fix: GSM overflowed for integer images

---
 src/viqa/fr_metrics/gsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 85556a0..59ccec5 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -408,6 +408,10 @@ def gradient_similarity(img_r, img_m, data_range=255, c=200, p=0.1):
     gradients_r = []
     gradients_m = []
 
+    # Integer gradients and differences would overflow
+    img_r = _to_float(img_r)
+    img_m = _to_float(img_m)
+
     if img_r.ndim == 3:
         kernels = KERNELS_3D
     elif img_r.ndim == 2:
-- 
2.43.0


From e83de5b3f5b0b60bcdf715cfa67af03550928545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:48 +0000
Subject: [PATCH 16/28] fix: histogram of integer images was never set

---
 src/viqa/utils/loading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 4c635fd..54c9278 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -217,8 +217,8 @@ class ImageArray(np.ndarray):
         self.standarddev = np.std(self.view())
         self.skewness = skew(self.view(), axis=None)
         self.kurtosis = kurtosis(self.view(), axis=None)
-        if self.view().dtype.kind in ["u", "i"]:
-            self.view().histogram = np.histogram(
+        if self.view().dtype.kind in ["u", "i"] and self.itemsize <= 2:
+            self.histogram = np.histogram(
                 self.view(), bins=np.iinfo(self.view().dtype).max
             )
         else:
-- 
2.43.0


From f90e2f4397e4f828843652d2dd241d91528e8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 17/28] fix: BatchMetrics reused results of other regions and
 other reference formats

---
 src/viqa/multiple.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index a516f35..334d72d 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -255,11 +255,22 @@ class BatchMetrics(_MultipleInterface):
         modified_img = None
         prev_mod_path = None
         metric_results = None
+        prev_roi = None
+        prev_ref_format = None
         for pair_num, pair in enumerate(tqdm(self.pairs)):
             reference_path = os.path.join(self.file_dir, pair["reference_image"])
             modified_path = os.path.join(self.file_dir, pair["modified_image"])
+            if self.global_roi is None and self.rois is not None:
+                roi = self.rois[pair_num]
+            # Results can only be reused for the same region
+            same_roi = roi == prev_roi
+            prev_roi = roi
             # Skip calculation if the images are the same as in the previous pair
-            if reference_path == prev_ref_path and modified_path == prev_mod_path:
+            if (
+                same_roi
+                and reference_path == prev_ref_path
+                and modified_path == prev_mod_path
+            ):
                 self.results[str(pair_num)] = metric_results
                 warn("Skipping calculation for identical image pair.", UserWarning)
                 continue
@@ -269,16 +280,19 @@ class BatchMetrics(_MultipleInterface):
                 prev_ref_path = reference_path
                 prev_result_reference = None
             else:
-                prev_result_reference = metric_results
+                prev_result_reference = metric_results if same_roi else None
+            ref_format = (reference_img.shape, reference_img.dtype)
             if modified_path != prev_mod_path:
                 modified_img = load_data(modified_path, **kwargs)
                 prev_mod_path = modified_path
                 prev_result_modified = None
-            else:
+            elif same_roi and ref_format == prev_ref_format:
                 prev_result_modified = metric_results
+            else:
+                # The modified image is prepared differently for this pair
+                prev_result_modified = None
 
-            if self.global_roi is None and self.rois is not None:
-                roi = self.rois[pair_num]
+            prev_ref_format = ref_format
 
             metric_results = _calc(
                 self.metrics,
-- 
2.43.0


From c066bdcfcddc8db5d24cb30a04cd24151d3630de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:21 +0000
Subject: [PATCH 18/28] fix: block statistics mixed up rows and columns of
 non-square images

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index e89af3d..6401c5d 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -77,8 +77,8 @@ static PyObject
     cout=pymatrix_to_Carrayptrs(matout);
 
     // For each area of size istride x istride, calculate the standard deviation
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u = i; u < i+iblocksize; u++) {
@@ -108,8 +108,8 @@ static PyObject
     }
 
     // Calculate minimum standard deviation for each area
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Look for minimum standard deviation in blocks of size istride x istride
             val = tmp_data[i][j];
             for (u = i; u < (iblocksize/2); u += (istride+1)) {
@@ -170,8 +170,8 @@ static PyObject
     krt_data=pymatrix_to_Carrayptrs(krtout);
 
     // For each area of size istride x istride, calculate the standard deviation, skewness and kurtosis
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u=i; u<i+iblocksize; u++) {
-- 
2.43.0


From 4461fdbacd1c50b690989c29cf9f663b8a4d2a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:21 +0000
Subject: [PATCH 19/28] fix: block statistics read non-contiguous and
 non-double images out of bounds

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 6401c5d..76947f6 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -62,6 +62,12 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    if (iblocksize < 1 || istride < 1 || istride > iblocksize || PyArray_NDIM(matin) != 2) {
+        PyErr_SetString(PyExc_ValueError, "image must be 2D and 0 < stride <= blocksize");
+        return NULL;
+    }
+    // Get the image as contiguous double array
+    matin = (PyArrayObject *) PyArray_FROM_OTF((PyObject *) matin, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (NULL == matin) return NULL;
     // Get dimensions of input array
     n = dims[0] = matin->dimensions[0];
@@ -132,6 +138,7 @@ static PyObject
 
     // Free memory
     free_Carrayptrs(cin);
+    Py_DECREF(matin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
 
@@ -152,6 +159,12 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    if (iblocksize < 1 || istride < 1 || istride > iblocksize || PyArray_NDIM(matin) != 2) {
+        PyErr_SetString(PyExc_ValueError, "image must be 2D and 0 < stride <= blocksize");
+        return NULL;
+    }
+    // Get the image as contiguous double array
+    matin = (PyArrayObject *) PyArray_FROM_OTF((PyObject *) matin, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (NULL == matin) return NULL;
 
     // Get dimensions of input array
@@ -221,6 +234,7 @@ static PyObject
 
     // Free memory
     free_Carrayptrs(cin);
+    Py_DECREF(matin);
     free_Carrayptrs(stdev_data);
     free_Carrayptrs(skw_data);
     free_Carrayptrs(krt_data);
-- 
2.43.0


From 41717c3fab8459ff0d87b4e55f2222eb63ae8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:21 +0000
Subject: [PATCH 20/28] fix: block statistics used and returned uninitialised
 memory

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 76947f6..64b86e4 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -74,8 +74,8 @@ static PyObject
     m = dims[1] = matin->dimensions[1];
 
     // Create output arrays
-    matout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    tmp=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    matout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    tmp=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
 
     // Convert input and output arrays to C pointers
     tmp_data=pymatrix_to_Carrayptrs(tmp);
@@ -118,8 +118,8 @@ static PyObject
         for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Look for minimum standard deviation in blocks of size istride x istride
             val = tmp_data[i][j];
-            for (u = i; u < (iblocksize/2); u += (istride+1)) {
-                for (v = j; v < (iblocksize/2); v += (istride+1)) {
+            for (u = i; u < (iblocksize/2) && u < n-(iblocksize-1); u += (istride+1)) {
+                for (v = j; v < (iblocksize/2) && v < m-(iblocksize-1); v += (istride+1)) {
                     if (tmp_data[u][v] < val)
                     {
                         val = tmp_data[u][v];
@@ -172,9 +172,9 @@ static PyObject
     m = dims[1] = matin->dimensions[1];
 
     // Create output arrays
-    stdevout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    skwout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    krtout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    stdevout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    skwout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    krtout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
 
     // Convert input and output arrays to C pointers
     cin=pymatrix_to_Carrayptrs(matin);
-- 
2.43.0


From 5656f555536b5bef85a6d901ef455420d3a59247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:21 +0000
Subject: [PATCH 21/28] fix: block statistics leaked their work and output
 arrays

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 64b86e4..9e531bb 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -141,6 +141,7 @@ static PyObject
     Py_DECREF(matin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
+    Py_DECREF(tmp);
 
     // Return output array
     return PyArray_Return(matout);
@@ -240,7 +241,7 @@ static PyObject
     free_Carrayptrs(krt_data);
 
     // Return output arrays as Python tuple
-    return PyTuple_Pack(3, stdevout, skwout, krtout);
+    return Py_BuildValue("(NNN)", stdevout, skwout, krtout);
 }
 
 /*
-- 
2.43.0


From c6c19425789c36a82a0632846fefb53fb4ce0261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:09 +0000
Subject: [PATCH 22/28] fix: SNR and CNR accept 2D images with three columns

A 2D image whose last axis has length 3 was taken for a colour image and its
two-dimensional centre rejected, also for the luminance image of a colour
image that is three pixels wide.
---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 94f2b60..9088242 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -220,7 +220,7 @@ class CNR(NoReferenceMetricsInterface):
             radius = self.parameters["radius"]
 
         # Check if img and signal_center have the same dimension
-        if img.shape[-1] == 3:
+        if img.ndim == 3 and img.shape[-1] == 3:
             if (
                 img.ndim != len(signal_center) + 1
                 or img.ndim != len(background_center) + 1
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index cad3b49..92addde 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -257,7 +257,7 @@ class SNR(NoReferenceMetricsInterface):
                     raise ValueError("No radius provided.")
 
             # Check if img and signal_center have the same dimension
-            if img.shape[-1] == 3:
+            if img.ndim == 3 and img.shape[-1] == 3:
                 if img.ndim != len(signal_center) + 1:
                     raise ValueError("Center has to be in the same dimension as img.")
             else:
@@ -1032,7 +1032,7 @@ def signal_to_noise_ratio(
         raise TypeError("Radius has to be a positive integer.")
 
     # Check if img and signal_center have the same dimension
-    if img.shape[-1] == 3:
+    if img.ndim == 3 and img.shape[-1] == 3:
         if img.ndim != len(signal_center) + 1:
             raise ValueError("Center has to be in the same dimension as img.")
     else:
-- 
2.43.0


From 9a37c65de83ce1ee2fc54f7a4ca8a16e9dddf41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:09 +0000
Subject: [PATCH 23/28] fix: 2D images with three columns are not colour images

_check_imgs converted 2D grey images of width 3 to one-dimensional
'luminance' arrays and accepted them for chromatic metrics.
---
 src/viqa/utils/loading.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 54c9278..1136ee7 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -1003,12 +1003,13 @@ def _check_imgs(
 
     if not isinstance(img_r_loaded, list):
         # Check if images are chromatic
-        if chromatic is False and img_r_loaded.shape[-1] == 3:
+        is_chromatic = img_r_loaded.ndim == 3 and img_r_loaded.shape[-1] == 3
+        if chromatic is False and is_chromatic:
             # Convert to grayscale as backup if falsely claimed to be non-chromatic
             warn("Images are chromatic. Converting to grayscale.")
             img_r_loaded = _to_grayscale(img_r_loaded)
             img_m_loaded = _to_grayscale(img_m_loaded)
-        elif chromatic is True and img_r_loaded.shape[-1] != 3:
+        elif chromatic is True and not is_chromatic:
             raise ValueError("Images are not chromatic.")
 
     return img_r_loaded, img_m_loaded
-- 
2.43.0


From ddf6d5cebc793671d280afffcd02f72e1e42363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:46 +0000
Subject: [PATCH 24/28] fix: 2D diagonal GSM kernels respond along their own
 diagonal

The middle rows of the xy and yx kernels had the wrong sign, so that both
mostly measured the vertical gradient (first moments (26, -6) and (26, 6)
instead of (26, -26) and (26, 26)), unlike the kernels of Liu et al. and the
diagonal kernels used for volumes.
---
 src/viqa/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/kernels.py b/src/viqa/kernels.py
index ed1df80..d7f199b 100644
--- a/src/viqa/kernels.py
+++ b/src/viqa/kernels.py
@@ -395,7 +395,7 @@ def gsm_kernel_2d_xy():
         [
             [0, 0, -1, 0, 0],
             [0, 0, -3, -8, 0],
-            [-1, -3, 0, 3, 1],
+            [1, 3, 0, -3, -1],
             [0, 8, 3, 0, 0],
             [0, 0, 1, 0, 0],
         ]
@@ -408,7 +408,7 @@ def gsm_kernel_2d_yx():
         [
             [0, 0, -1, 0, 0],
             [0, -8, -3, 0, 0],
-            [1, 3, 0, -3, -1],
+            [-1, -3, 0, 3, 1],
             [0, 0, 3, 8, 0],
             [0, 0, 1, 0, 0],
         ]
-- 
2.43.0


From c186ed550913df3322b2b9eb1d783dbf1555bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 25/28] fix: GSM masking constant uses the largest gradient
 magnitude

For images whose strongest gradient response is nowhere positive the constant
became negative or infinite, so identical images scored nan instead of 1.
---
 src/viqa/fr_metrics/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 59ccec5..4cd6fdd 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -432,7 +432,7 @@ def gradient_similarity(img_r, img_m, data_range=255, c=200, p=0.1):
 
     img_r_gradient = _to_float(img_r_gradient)
     img_m_gradient = _to_float(img_m_gradient)
-    k = c / max(np.max(img_r_gradient), np.max(img_m_gradient))
+    k = c / max(np.max(np.abs(img_r_gradient)), np.max(np.abs(img_m_gradient)))
     r = np.abs(img_r_gradient - img_m_gradient) / max(
         img_r_gradient, img_m_gradient, key=_mean_of_abs
     )
-- 
2.43.0


From 86a1151638a73c2a759c1f5172faddd13bdb5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:13 +0000
Subject: [PATCH 26/28] fix: multi-metric calculation does not normalise the
 cropped images a second time

---
 src/viqa/multiple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index 334d72d..b570b58 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -696,7 +696,8 @@ def _calc(metrics, metrics_parameters, img_r, img_m, **kwargs):
         img_r = crop_image(img_r, *roi)
         img_m = crop_image(img_m, *roi)
 
-    img_r, img_m = _check_imgs(img_r, img_m, **kwargs)
+    # The images are already loaded and normalized
+    img_r, img_m = _check_imgs(img_r, img_m)
 
     metric_results = {}
     for metric, parameters in tqdm(
-- 
2.43.0


From 1f886c07c47f8af67b5e382de6a5c9ae71718d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:02 +0000
Subject: [PATCH 27/28] fix: block statistics computed row offsets and sizes in
 int, which overflows for large images

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 9e531bb..4f6764e 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -55,11 +55,11 @@ static PyObject
     // Declare variables
     PyArrayObject *matin, *matout, *tmp;
     double **cin, **cout, **tmp_data, mean, stdev, val;
-    int iblocksize, istride, i, j, u, v, n, m;
+    npy_intp iblocksize, istride, i, j, u, v, n, m;
     npy_intp dims[2];
 
     // Parse input arguments
-    if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
+    if (!PyArg_ParseTuple(args, "O!nn", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
     if (iblocksize < 1 || istride < 1 || istride > iblocksize || PyArray_NDIM(matin) != 2) {
@@ -153,11 +153,11 @@ static PyObject
     // Declare variables
     PyArrayObject *matin, *stdevout, *skwout, *krtout;
     double **cin, **stdev_data, **skw_data, **krt_data, tmp, stmp, mean, stdev, krt, skw;
-    int iblocksize, istride, i, j, u, v, n, m;
+    npy_intp iblocksize, istride, i, j, u, v, n, m;
     npy_intp dims[2];
 
     // Parse input arguments
-    if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
+    if (!PyArg_ParseTuple(args, "O!nn", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
     if (iblocksize < 1 || istride < 1 || istride > iblocksize || PyArray_NDIM(matin) != 2) {
@@ -254,7 +254,7 @@ double
 **pymatrix_to_Carrayptrs(PyArrayObject *arrayin)
 {
     double **c, *a;
-    int i,n,m;
+    npy_intp i,n,m;
 
     n = arrayin->dimensions[0];
     m = arrayin->dimensions[1];
-- 
2.43.0


From b0f3b382367402bb7c76d0dcda5a6ab212d4e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:22 +0000
Subject: [PATCH 28/28] fix: block statistics crashed or exited when memory for
 their arrays ran out

---
 .../fr_metrics/stat_utils/statisticsmodule.c  | 38 +++++++++++++++++--
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 4f6764e..105088d 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -76,11 +76,26 @@ static PyObject
     // Create output arrays
     matout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
     tmp=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    if (NULL == matout || NULL == tmp) {
+        Py_DECREF(matin);
+        Py_XDECREF(matout);
+        Py_XDECREF(tmp);
+        return NULL;
+    }
 
     // Convert input and output arrays to C pointers
     tmp_data=pymatrix_to_Carrayptrs(tmp);
     cin=pymatrix_to_Carrayptrs(matin);
     cout=pymatrix_to_Carrayptrs(matout);
+    if (NULL == tmp_data || NULL == cin || NULL == cout) {
+        free_Carrayptrs(tmp_data);
+        free_Carrayptrs(cin);
+        free_Carrayptrs(cout);
+        Py_DECREF(matin);
+        Py_DECREF(matout);
+        Py_DECREF(tmp);
+        return PyErr_NoMemory();
+    }
 
     // For each area of size istride x istride, calculate the standard deviation
     for (i = 0; i < n-(iblocksize-1); i += istride) {
@@ -176,12 +191,30 @@ static PyObject
     stdevout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
     skwout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
     krtout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    if (NULL == stdevout || NULL == skwout || NULL == krtout) {
+        Py_DECREF(matin);
+        Py_XDECREF(stdevout);
+        Py_XDECREF(skwout);
+        Py_XDECREF(krtout);
+        return NULL;
+    }
 
     // Convert input and output arrays to C pointers
     cin=pymatrix_to_Carrayptrs(matin);
     stdev_data=pymatrix_to_Carrayptrs(stdevout);
     skw_data=pymatrix_to_Carrayptrs(skwout);
     krt_data=pymatrix_to_Carrayptrs(krtout);
+    if (NULL == cin || NULL == stdev_data || NULL == skw_data || NULL == krt_data) {
+        free_Carrayptrs(cin);
+        free_Carrayptrs(stdev_data);
+        free_Carrayptrs(skw_data);
+        free_Carrayptrs(krt_data);
+        Py_DECREF(matin);
+        Py_DECREF(stdevout);
+        Py_DECREF(skwout);
+        Py_DECREF(krtout);
+        return PyErr_NoMemory();
+    }
 
     // For each area of size istride x istride, calculate the standard deviation, skewness and kurtosis
     for (i = 0; i < n-(iblocksize-1); i += istride) {
@@ -259,6 +292,7 @@ double
     n = arrayin->dimensions[0];
     m = arrayin->dimensions[1];
     c = ptrvector(n);
+    if (!c) return NULL;
     a = (double *) arrayin->data; /* pointer to arrayin data as double */
     for (i = 0; i < n; i++) {
         c[i] = a + i*m;
@@ -271,10 +305,6 @@ double
 {
     double **v;
     v = (double **)malloc((size_t) (n*sizeof(double *)));
-    if (!v) {
-        printf("In **ptrvector. Allocation of memory for double array failed.");
-        exit(0);
-    }
     return v;
 }
 
-- 
2.43.0

