From b877f4a6ebff4a8afe565027b0e2c29c234786e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 01/38] fix: accept every documented resolution form in sensor
 scans

---
 simcats/_simulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2308ef1..59990f6 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -463,6 +463,10 @@ class Simulation:
                 f"a fixed voltage for the corresponding gate, to perform a single gate sweep."
             )
 
+        # a single resolution describes a 1D scan, independent of whether it is passed as int or as array
+        if not type(resolution) == int and len(resolution) == 1:
+            resolution = int(resolution[0])
+
         if self.ideal_csd_config is None or volt_g1 is None or volt_g2 is None:
             if type(resolution) == int:
                 occupations = np.zeros((resolution, 2))
@@ -478,9 +482,6 @@ class Simulation:
                 volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
             )
 
-            if len(resolution) == 1:
-                resolution = int(resolution[0])
-
             if type(resolution) == int:
                 occupations = np.ones((resolution, 2))
                 occupations[:, 0] = occupations[:, 0] * occupations_csd[0, 0]
-- 
2.43.0


From 700e8deccae245c60f508cd5db932724c67e9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 02/38] fix: pass the sensor g2 range to response distortions
 of sensor scans

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 59990f6..2e6c194 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -541,7 +541,7 @@ class Simulation:
         if self.__sensor_response_distortions is not None:
             for i in self.__sensor_response_distortions:
                 scan = i.noise_function(
-                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g1
+                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g2
                 )
 
         # create a dictionary containing all the metadata
-- 
2.43.0


From 6aeeac1852ca2939193305f191fdc330ed1118bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 03/38] fix: do not check omitted sensor voltages against the
 sensor limits

---
 simcats/_simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2e6c194..882b4f2 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -183,13 +183,15 @@ class Simulation:
             )
 
         if (
-                self.__volt_limits_sensor_g1 is not None
+                volt_sensor_g1 is not None
+                and self.__volt_limits_sensor_g1 is not None
                 and (
                 volt_sensor_g1 < self.__volt_limits_sensor_g1[0]
                 or volt_sensor_g1 > self.__volt_limits_sensor_g1[1]
         )
                 or (
-                self.__volt_limits_sensor_g2 is not None
+                volt_sensor_g2 is not None
+                and self.__volt_limits_sensor_g2 is not None
                 and (
                         volt_sensor_g2 < self.__volt_limits_sensor_g2[0]
                         or volt_sensor_g2 > self.__volt_limits_sensor_g2[1]
-- 
2.43.0


From d643fd406203e94605396115e869a2689e69fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 04/38] fix: accept voltage limits given as list instead of
 failing with AttributeError

---
 simcats/_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 882b4f2..d5c5f35 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -587,7 +587,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and volt_limits_g1.size == 2)
+                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and np.size(volt_limits_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g1 configuration is not supported. Must be either None or "
@@ -616,7 +616,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and volt_limits_g2.size == 2)
+                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and np.size(volt_limits_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g2 configuration is not supported. Must be either None or "
@@ -646,7 +646,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g1 is None or (
-                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and volt_limits_sensor_g1.size == 2)
+                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and np.size(volt_limits_sensor_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g1 configuration is not supported. Must be either None or "
@@ -676,7 +676,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g2 is None or (
-                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and volt_limits_sensor_g2.size == 2)
+                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and np.size(volt_limits_sensor_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g2 configuration is not supported. Must be either None or "
-- 
2.43.0


From f56c99edc3c55e53a494902d1a6d1f79d1337883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 05/38] fix: detect regions above the last TCT in 1D scans

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 53af5db..3e5d0c8 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -186,6 +186,8 @@ def get_electron_occupation(
     elif csd.ndim == 1:
         csd_points = np.vstack((col_values, row_values)).T
         csd_points_rot = rotate_points(points=csd_points, angle=-rotation)
+        # start with the region above the last TCT, so that undefined regions are detected (as for 2D)
+        csd_mask[:] = max(tct_functions, default=0)
         # iterate TCTs
         for tct_value, tct_func in sorted(tct_functions.items(), reverse=True):
             y_vals_tct = tct_func(x_eval=csd_points_rot[:, 0], lut_entries=lut_entries)
-- 
2.43.0


From 893dcc6392570d9a71e90240c8c8f52e04e0776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 06/38] fix: sample TCTs densely enough for anisotropic windows

---
 .../ideal_csd/geometric/_generate_lead_transition_mask.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
index c929d1c..0acf6aa 100644
--- a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
+++ b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
@@ -101,8 +101,11 @@ def generate_lead_transition_mask_2d(
     x_c_rot = rotate_points(points=corner_points, angle=-rotation)[:, 0]
     # generate enough x-values to cover the complete range of the CSD with a
     # higher resolution than required to have a precise result after discretization
-    tct_points = np.empty(((x_res + y_res) * 4, 2))
-    tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, (x_res + y_res) * 4)
+    # the distance between two samples must be smaller than the smallest pixel edge, else the lines can have gaps
+    x_min, x_max = np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step
+    num_samples = max((x_res + y_res) * 4, int(np.ceil(2 * (x_max - x_min) / min(x_step, y_step))))
+    tct_points = np.empty((num_samples, 2))
+    tct_points[:, 0] = np.linspace(x_min, x_max, num_samples)
 
     # Insert the transition lines into the CSD
     # If the CSD is 2D, the required TCT points are sampled and discretized.
-- 
2.43.0


From 54eb36038cfee7f339db0c838310706a46aa0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 07/38] fix: assign electrons to the correct dot if there is no
 interdot coupling region

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 3e5d0c8..fd0dc80 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -208,7 +208,7 @@ def get_electron_occupation(
         # the first interdot transition happens between peak 1 (first valley) of tct_bezier and
         # peak 0 (first peak) of tct_bezier-1
         try:
-            ref_line = np.array([[bezier_coords[int(reg) + 1][1, 1, :]], [bezier_coords[int(reg)][0, 1, :]]])
+            ref_line = np.array([[bezier_coords[int(reg)][0, 1, :]], [bezier_coords[int(reg) + 1][1, 1, :]]])
         except KeyError as e:
             raise IndexError(
                 f"bezier_coords dictionary does not contain an entry for total charge transition (TCT) {e}. "
-- 
2.43.0


From 25a1d8b1252fb6b4f1f9354a76645302f95d6478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 08/38] fix: evaluate TCTs for integer x-values and integer
 parameters

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index a90850f..b5e0461 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -54,15 +54,15 @@ def tct_bezier(
         x_eval = np.array([x_eval])
     else:
         single_value = False
-    # copy x_eval so that the original supplied array is not modified
-    x_eval = np.copy(x_eval)
+    # copy x_eval (as float) so that the original supplied array is not modified
+    x_eval = np.array(x_eval, dtype=float)
 
     # setup array for resulting y-values
     y_res = np.zeros(x_eval.shape)
 
     # setup coordinates for bezier curve nodes
-    x_vals = np.array([tct_params[4], 0, tct_params[6]])
-    y_vals = np.array([tct_params[5], 0, tct_params[7]])
+    x_vals = np.array([tct_params[4], 0, tct_params[6]], dtype=float)
+    y_vals = np.array([tct_params[5], 0, tct_params[7]], dtype=float)
     if x_vals[0] == x_vals[2] and y_vals[0] == y_vals[2]:
         # no interdot coupling region specified -> center anchor is equal to outer anchors
         x_vals[1] = x_vals[0]
-- 
2.43.0


From 6f468feb29188300781ad17af1607aef2c418d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 09/38] fix: use the occupation of dot 2 for the offset of
 barrier 1

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 03652aa..0a1f9c6 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -620,7 +620,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         offset1 = (gate_offset[0] +
                    self.offset_mu_sens[1] +
                    self.alpha_dot[1, 0] * occ[0] +
-                   self.alpha_dot[1, 1] * occ[0])
+                   self.alpha_dot[1, 1] * occ[1])
 
         offset2 = (gate_offset[1] +
                    self.offset_mu_sens[2] +
-- 
2.43.0


From efe664325faca8d256d8e586f5d84c2da3b7dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 10/38] fix: use the g2 voltage for the fully conductive point
 of sensor scan labels

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0a1f9c6..2cc54ec 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -830,7 +830,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         fully_conductive_potential = self.sensor_potential(
             occupations=np.array((occ,)),
             volt_limits_g1=volt_limits_g1,
-            volt_limits_g2=volt_limits_g1,
+            volt_limits_g2=volt_limits_g2,
             volt_limits_sensor_g1=fully_conductive_point[0],
             volt_limits_sensor_g2=fully_conductive_point[1],
         )
-- 
2.43.0


From 292adaddc5d51029087e8c2e19bb8a5d1b74cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 11/38] fix: accept integer plunger voltages in sensor scans

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 2cc54ec..7704938 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -818,8 +818,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         apply_deformations = len(self.sensor_peak_deformations) != 0
 
-        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, float)) and
-                (volt_limits_g2 is None or isinstance(volt_limits_g2, float))):
+        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, numbers.Real)) and
+                (volt_limits_g2 is None or isinstance(volt_limits_g2, numbers.Real))):
             raise ValueError("The volt limits have to be fixed values or None when sensor scan labels are generated!")
 
         fully_conductive_point = self._calc_point_from_barrier_potentials(
-- 
2.43.0


From 57af88ad886b030f1214ebd71dc8e7ed32424e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 12/38] fix: label deformed peaks by their peak id also if the
 peaks are not sorted

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 7704938..4711d62 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -881,10 +881,10 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         for idx, peak, peak_id in reversed(list(peaks_sorted_with_id)):
             distorted_pot: np.ndarray
-            if idx in self.sensor_peak_deformations.keys():
-                deformation = self.sensor_peak_deformations[idx]
+            if peak_id in self.sensor_peak_deformations.keys():
+                deformation = self.sensor_peak_deformations[peak_id]
                 distorted_pot = sensor_pot + (
-                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=self.sensor_peak_function[idx].mu0))
+                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=peak.mu0))
             else:
                 distorted_pot = sensor_pot
 
-- 
2.43.0


From 24ecb587a130422a934a86e9310d8898d6bdfed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 13/38] fix: generate sensor scan labels for sensors without
 peaks

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 4711d62..a03235a 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -870,6 +870,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             dist_array = dist_array.reshape(sensor_pot.shape)
 
         all_peaks = copy.deepcopy(self.sensor_peak_function)
+        if all_peaks is None:
+            all_peaks = []
         if isinstance(all_peaks, SensorPeakInterface):
             all_peaks = [all_peaks]
 
-- 
2.43.0


From 8c622d924f68204e99eb2d03d3d9cde5fad02cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 14/38] fix: align the final rise with the requested potential
 for mu0 != 0

---
 simcats/sensor/_sensor_rise_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_rise_glf.py b/simcats/sensor/_sensor_rise_glf.py
index 42ab746..01a8a66 100644
--- a/simcats/sensor/_sensor_rise_glf.py
+++ b/simcats/sensor/_sensor_rise_glf.py
@@ -216,7 +216,7 @@ class SensorRiseGLF(SensorRiseInterface):
                    asymmetry=self.asymmetry,
                    shape_factor=self.shape_factor,
                    denominator_offset=self.denominator_offset,
-                   offset= -self.fully_conductive + offset)
+                   offset=self.mu0 - self.fully_conductive + offset)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 49ccd5f2e26d6c91f6c4123d5b054cf52af2623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 15/38] fix: continue circular deformations with negative
 radius on the correct side

---
 simcats/sensor/deformation/_sensor_peak_deformation_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
index ad87c97..0c04a8b 100644
--- a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
+++ b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
@@ -92,7 +92,7 @@ class SensorPeakDeformationCircle(SensorPeakDeformationInterface):
 
         # Calculation of both possible points of the circle that have the distance dist to the middle line
         temp1 = mu0 - (radius_abs - cos_angle * radius_abs) * sign_radius
-        temp2 = mu0 - radius_volt * np.sign(radius_volt)
+        temp2 = mu0 - radius_volt
 
         # Selection of the result that is closer to the output mu0
         result = np.where(dist <= radius_abs, temp1, temp2)
-- 
2.43.0


From 641e619f0aa255d85fd420c7be0245d5400aef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 16/38] fix: align the final rise for every pixel with the
 fully conductive point

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 70 +++++++------------
 1 file changed, 27 insertions(+), 43 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index a03235a..6657968 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -464,8 +464,6 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         sweep_only_sensor = self._volt_limits_g1[0] == self._volt_limits_g1[-1] and \
                             self._volt_limits_g2[0] == self._volt_limits_g2[-1]
-        sensor_swept = self._volt_limits_g1[0] == self._volt_limits_g1[-1] or \
-                       self._volt_limits_g2[0] == self._volt_limits_g2[-1]
 
         if apply_deformations and sweep_only_sensor:
             # Calculate sigma when deformations have to be applied
@@ -474,8 +472,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             # Calculation of the middle point for deformations
             middle_point = self._calc_point_from_barrier_potentials(
                 pot_bar1=self.barrier_functions[0].pinch_off,
-                pot_bar2=self.barrier_functions[1].pinch_off,
-                sensor_swept=sensor_swept
+                pot_bar2=self.barrier_functions[1].pinch_off
             )
 
             if sensor_potential.ndim == 1:
@@ -527,35 +524,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 sens_resp = np.sum([p.sensor_function(sensor_potential) for p in self.__sensor_peak_function], axis=0)
 
             if self.final_rise is not None:
-                # Calculation of the middle point
-                g1_voltage = self._volt_limits_g1[0]
-                g2_voltage = self._volt_limits_g2[0]
-
-                if self._occupations.ndim == 2:
-                    occ = (self._occupations[0, 0], self._occupations[0, 1])
-                elif self._occupations.ndim == 3:
-                    occ = (self._occupations[0, 0, 0], self._occupations[0, 0, 1])
-                else:
-                    raise ValueError(
-                        "Invalid dimension of occupations! The dimension of the occupations must be one larger than "
-                        "the scan dimension")
-
-                fully_conductive_point = self._calc_point_from_barrier_potentials(
-                    pot_bar1=self.barrier_functions[0].fully_conductive,
-                    pot_bar2=self.barrier_functions[1].fully_conductive,
-                    sensor_swept=sensor_swept
-                )
-
-                fully_conductive_potential = self.sensor_potential(
-                    occupations=np.array((occ,)),
-                    volt_limits_g1=g1_voltage,
-                    volt_limits_g2=g2_voltage,
-                    volt_limits_sensor_g1=fully_conductive_point[0],
-                    volt_limits_sensor_g2=fully_conductive_point[1],
-                )
-
                 final_rise_resp = self.final_rise.sensor_function(sensor_potential,
-                                                                  offset=fully_conductive_potential[0])
+                                                                  offset=self._calc_fully_conductive_potential())
 
                 sens_resp = np.maximum(sens_resp, final_rise_resp)
 
@@ -573,11 +543,32 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             denominator = barrier1_resp * barrier2_resp + sens_resp * barrier1_resp + sens_resp * barrier2_resp
             return np.divide(numerator, denominator, out=np.zeros_like(numerator), where=denominator != 0)
 
+    def _calc_fully_conductive_potential(self) -> np.ndarray:
+        """Calculates the sensor dot potential at which both barriers are fully conductive.
+
+        This is done for every pixel of the last calculated sensor potential, because the occupations and the voltages
+        of the double dot (plunger) gates influence the sensor dot and the barriers differently. Only the voltages of
+        the sensor gates are changed to reach the fully conductive point.
+
+        Returns:
+            np.ndarray: The sensor dot potential of the fully conductive point for every pixel.
+        """
+        voltages = np.empty(self._occupations.shape)
+        voltages[..., 0] = np.linspace(self._volt_limits_g1[0], self._volt_limits_g1[-1], self._occupations.shape[-2])
+        voltages_g2 = np.linspace(self._volt_limits_g2[0], self._volt_limits_g2[-1], self._occupations.shape[0])
+        voltages[..., 1] = voltages_g2[:, np.newaxis] if self._occupations.ndim == 3 else voltages_g2
+
+        # all contributions to the three potentials except for those of the sensor gates
+        rest = self._occupations.dot(self.alpha_dot.T) + voltages.dot(self.alpha_gate.T) + self.offset_mu_sens
+
+        target = np.array([self.barrier_functions[0].fully_conductive, self.barrier_functions[1].fully_conductive])
+        sensor_voltages = (target - rest[..., 1:]).dot(np.linalg.inv(self.alpha_sensor_gate[1:]).T)
+        return sensor_voltages.dot(self.alpha_sensor_gate[0]) + rest[..., 0]
+
     def _calc_point_from_barrier_potentials(
             self,
             pot_bar1: float,
-            pot_bar2: float,
-            sensor_swept: bool = True
+            pot_bar2: float
     ) -> Tuple[float, float]:
         """Calculate a point in voltage space from given barrier potentials.
 
@@ -588,9 +579,6 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         Args:
             pot_bar1 (float): Target potential for barrier 1.
             pot_bar2 (float): Target potential for barrier 2.
-            sensor_swept (bool): Boolean that indicates whether the sensor gates are swept and a sensor scan is
-                simulated or gates g1 and g2 are swept and a CSD is simulated. The boolean is true when a sensor scan is
-                simulated and false otherwise.
 
         Returns:
             Tuple[float, float]: The calculated point coordinates (g1, g2) in gate voltage space.
@@ -609,12 +597,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         pot_bar1 = float(pot_bar1)
         pot_bar2 = float(pot_bar2)
 
-        if sensor_swept:
-            voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
-            gate_offset = np.dot(self.alpha_gate[1:], voltages)
-        else:
-            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g1[0]])
-            gate_offset = np.dot(self.alpha_sensor_gate[1:], voltages)
+        voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
+        gate_offset = np.dot(self.alpha_gate[1:], voltages)
 
         # Calculate potential offsets for both barriers
         offset1 = (gate_offset[0] +
-- 
2.43.0


From 89ad7ebc37fa2697d6f92669b399537ae02999bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 17/38] fix: measure deformed sensor scans with a single pixel

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 6657968..1b74dd1 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -477,13 +477,13 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
             if sensor_potential.ndim == 1:
                 for pixel_idx in range(sensor_potential.shape[0]):
-                    voltage_y = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                  volt_limits=self._volt_limits_g2)
-                    voltage_y_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                         volt_limits=self._volt_limits_sensor_g2)
-                    voltage_x = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_x = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                  volt_limits=self._volt_limits_g1)
-                    voltage_x_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_x_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                         volt_limits=self._volt_limits_sensor_g1)
                     sens_resp[pixel_idx] = self._peak_func(mu_sens=sensor_potential[pixel_idx], volt_g1=voltage_x,
                                                            volt_g2=voltage_y, volt_sensor_g1=voltage_x_sensor,
@@ -492,14 +492,14 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
             elif sensor_potential.ndim == 2:
                 for y in range(sensor_potential.shape[0]):
-                    voltage_y = pixel_to_volt_1d(pixel=y, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y = pixel_to_volt_1d(pixel=y, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                  volt_limits=self._volt_limits_g2)
-                    voltage_y_sensor = pixel_to_volt_1d(pixel=y, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y_sensor = pixel_to_volt_1d(pixel=y, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                         volt_limits=self._volt_limits_sensor_g2)
                     for x in range(sensor_potential.shape[1]):
-                        voltage_x = pixel_to_volt_1d(pixel=x, pixel_num=sensor_potential.shape[1] - 1,
+                        voltage_x = pixel_to_volt_1d(pixel=x, pixel_num=max(sensor_potential.shape[1] - 1, 1),
                                                      volt_limits=self._volt_limits_g1)
-                        voltage_x_sensor = pixel_to_volt_1d(pixel=x, pixel_num=sensor_potential.shape[1] - 1,
+                        voltage_x_sensor = pixel_to_volt_1d(pixel=x, pixel_num=max(sensor_potential.shape[1] - 1, 1),
                                                             volt_limits=self._volt_limits_sensor_g1)
                         sens_resp[y, x] = self._peak_func(mu_sens=sensor_potential[y, x],
                                                           volt_g1=voltage_x,
-- 
2.43.0


From e1a0e7dbe2ff4c72912a39252935cb86781441ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 18/38] fix: use the pixel density of the affected gate for dot
 jumps

---
 simcats/distortions/_dot_jumps.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 22b6038..4c5ca15 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -169,7 +169,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             else:
                 self.__activated = True
 
-        resolution = occupations.shape[0:2]
+        resolution = occupations.shape[:-1]
         if freeze:
             scale = None
             lam = None
@@ -183,15 +183,13 @@ class OccupationDotJumps(OccupationDistortionInterface):
             except AttributeError:
                 lam = self.lam
             if self.axis == 1:  # dot jumps in x direction
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-                lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-            elif self.axis == 0:  # dot jumps in y direction
-                if len(occupations.shape) == 3:
-                    scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                else:
-                    scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                pixels = resolution[-1]
+                volt_range = np.max(volt_limits_g1) - np.min(volt_limits_g1)
+            else:  # dot jumps in y direction
+                pixels = resolution[0]
+                volt_range = np.max(volt_limits_g2) - np.min(volt_limits_g2)
+            scale *= pixels / volt_range
+            lam *= pixels / volt_range
             if scale < 1:
                 # smallest possible value is 1, so set to 1. As this might not be, what the user wants, warn about it
                 warnings.warn(
-- 
2.43.0


From ce5026b2573ecf881960b69c38586e1842b75716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 19/38] fix: support dot jumps for 1D sweeps that do not sweep
 the affected gate

---
 simcats/distortions/_dot_jumps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 4c5ca15..c22d15e 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -188,6 +188,10 @@ class OccupationDotJumps(OccupationDistortionInterface):
             else:  # dot jumps in y direction
                 pixels = resolution[0]
                 volt_range = np.max(volt_limits_g2) - np.min(volt_limits_g2)
+            if volt_range == 0:
+                # The affected gate is not swept. The data thus lie completely in the first block, which has no shift.
+                self.__previous_noise = np.zeros(pixels, dtype=int)
+                return occupations, lead_transitions
             scale *= pixels / volt_range
             lam *= pixels / volt_range
             if scale < 1:
-- 
2.43.0


From 6ec11078c1315cbaaaa34522b07bfcae2df4ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 20/38] fix: dot jumps for 2D scans with both gates swept from
 high to low voltages

---
 simcats/distortions/_dot_jumps.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index c22d15e..3658d02 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -234,9 +234,9 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1, :]
             if volt_limits_g1[0] > volt_limits_g1[1]:
-                sorted_occupations = occupations[:, ::-1]
+                sorted_occupations = sorted_occupations[:, ::-1]
                 if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[:, ::-1]
+                    sorted_transitions = sorted_transitions[:, ::-1]
             self._noise_function_2d(
                 sorted_occupations,
                 sorted_transitions,
@@ -247,15 +247,6 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            # bring back into original order
-            if volt_limits_g2[0] > volt_limits_g2[1]:
-                occupations = sorted_occupations[::-1, :]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1, :]
-            if volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[:, ::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[:, ::-1]
         return occupations, lead_transitions
 
     def _noise_function_1d(
-- 
2.43.0


From 9d2b5b7dbaa70518bf0e986613cdbdffc1e48099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 21/38] fix: dot jumps for 1D sweeps in which the gates are
 swept in opposite directions

---
 simcats/distortions/_dot_jumps.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 3658d02..cd14e6e 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -210,7 +210,13 @@ class OccupationDotJumps(OccupationDistortionInterface):
         sorted_occupations = occupations
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
+            # the pixels are sorted by the voltage of the affected gate and both voltage ranges have to follow this order
+            sorted_limits_g1 = np.asarray(volt_limits_g1)
+            sorted_limits_g2 = np.asarray(volt_limits_g2)
+            affected_limits = sorted_limits_g1 if self.axis == 1 else sorted_limits_g2
+            if affected_limits[0] > affected_limits[1]:
+                sorted_limits_g1 = sorted_limits_g1[::-1]
+                sorted_limits_g2 = sorted_limits_g2[::-1]
                 sorted_occupations = occupations[::-1]
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1]
@@ -224,10 +230,6 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1]
         if len(occupations.shape) == 3:  # 2d scan
             if volt_limits_g2[0] > volt_limits_g2[1]:
                 sorted_occupations = occupations[::-1, :]
-- 
2.43.0


From d454d1f46b434139af59b8a4e0f218a46ea96b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 22/38] fix: use the g2 step size for 1D dot jumps along g2

---
 simcats/distortions/_dot_jumps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index cd14e6e..0aec919 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -338,7 +338,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupations.shape[0]
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
-- 
2.43.0


From 03055cedad075349186426481f5fee92a7469ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 23/38] fix: continue the pixel grid when generating data for
 dot jumps

---
 simcats/distortions/_dot_jumps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 0aec919..b7116ba 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -312,7 +312,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:
                 # generate the necessary part to the "left" of the CSD and fill into 2d csd
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / max(occupations.shape[0] - 1, 1)
                 for i in range(max_jump):
                     left_occupation, left_charge_transitions = generate_csd(
                         volt_limits_g1=(
@@ -338,7 +338,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / max(occupations.shape[0] - 1, 1)
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
@@ -460,7 +460,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:  # jumps in x direction
                 # generate the necessary part to the "left" of the CSD and stack to CSD
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupation.shape[1]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / max(occupation.shape[1] - 1, 1)
                 left_occupation, left_charge_transitions = generate_csd(
                     volt_limits_g1=(
                         volt_limits_g1[0] - max_jump * step_size,
@@ -476,7 +476,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                     total_charge_transitions_stacked = np.hstack((left_charge_transitions, lead_transitions))
             elif self.axis == 0:  # jumps in y direction
                 # generate the necessary part to the "top" of the CSD array and stack to CSD
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupation.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / max(occupation.shape[0] - 1, 1)
                 top_occupation, top_charge_transitions = generate_csd(
                     volt_limits_g1=volt_limits_g1,
                     volt_limits_g2=(
-- 
2.43.0


From 9cf305aed217c01448fb03338e639e7e63b882b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 24/38] fix: do not wrap dot jump heights at 256 pixels

---
 simcats/distortions/_dot_jumps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index b7116ba..fd7c457 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -598,7 +598,7 @@ def generate_dot_jumps_blockwise(
             break
 
     noise = noise[:size]
-    noise = noise.astype("uint8")
+    noise = noise.astype(int)
     return noise
 
 
@@ -732,7 +732,7 @@ def dot_jumps_pixelwise(
 
         noise = noise[:size]
         noise = noise.reshape(original.shape)
-        noise = noise.astype("uint8")
+        noise = noise.astype(int)
 
     shifted = np.empty(original.shape)
     rows = original.shape[0]
-- 
2.43.0


From 9fb9fc60e9d1fe20f41f8dce1aaa3ba216679616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 25/38] fix: use the pixel density of g1 for the blurring of 2D
 scans

---
 simcats/distortions/_transition_blurring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index c9550b4..ecfe396 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -104,7 +104,7 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = fermi_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = fermi_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
@@ -220,7 +220,7 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = gaussian_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
-- 
2.43.0


From dd414523189ae1a0e1960876974d348c5fbfd33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 26/38] fix: use the pixel densities of the respective gates
 for RTN of 2D scans

---
 simcats/distortions/_random_telegraph_noise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 8e2fe84..61b366b 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -139,13 +139,13 @@ class RandomTelegraphNoise(DistortionInterface):
         if len(original.shape) == 2:
             resolution = original.shape
             if volt_limits_g1[0] == volt_limits_g1[1]:
-                scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             elif volt_limits_g2[0] == volt_limits_g2[1]:
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                scale *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
             else:
                 scale *= np.maximum(
-                    resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
-                    resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
+                    resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
+                    resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
                 )
         else:
             resolution = (original.shape[0], original.shape[0])
-- 
2.43.0


From da9f35721777698ba59de75d88f1a2edb77f649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 27/38] fix: support RTN with bursts shorter than one pixel

---
 simcats/distortions/_random_telegraph_noise.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 61b366b..0fad103 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -3,6 +3,7 @@
 @author: s.fleitmann
 """
 
+import warnings
 from typing import Union, Optional
 
 import numpy as np
@@ -152,6 +153,14 @@ class RandomTelegraphNoise(DistortionInterface):
             # sweep between starting and ending point
             scale *= resolution[0] / np.maximum(np.max(volt_limits_g1) - np.min(volt_limits_g1), np.max(volt_limits_g2) - np.min(volt_limits_g2))
 
+        if 0 < scale < 1:
+            # the smallest possible length is one pixel
+            warnings.warn(
+                "The given scale in voltages results in a pixelwise scale of less than 1 and is thus set to 1. That "
+                "means the length of bursts is always 1. Consider using a larger scale or a higher resolution."
+            )
+            scale = 1
+
         try:
             std = self.std.sample_parameter()
         except AttributeError:
-- 
2.43.0


From 036a2dc2680b7c9dadbba3b701ab5ddd0dad11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 28/38] fix: support RTN if no gate is swept

---
 simcats/distortions/_random_telegraph_noise.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 0fad103..35c2512 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -151,7 +151,13 @@ class RandomTelegraphNoise(DistortionInterface):
         else:
             resolution = (original.shape[0], original.shape[0])
             # sweep between starting and ending point
-            scale *= resolution[0] / np.maximum(np.max(volt_limits_g1) - np.min(volt_limits_g1), np.max(volt_limits_g2) - np.min(volt_limits_g2))
+            volt_range = np.maximum(
+                np.max(volt_limits_g1) - np.min(volt_limits_g1), np.max(volt_limits_g2) - np.min(volt_limits_g2)
+            )
+            if volt_range == 0:
+                # No gate is swept. All pixels thus lie in the first region, which has no burst.
+                return original
+            scale *= resolution[0] / volt_range
 
         if 0 < scale < 1:
             # the smallest possible length is one pixel
-- 
2.43.0


From 0c26d793e07e0e26fc5107f943c7d0d586aa91b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 29/38] fix: support blurring if no gate is swept

---
 simcats/distortions/_transition_blurring.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index ecfe396..35bf2be 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -109,6 +109,9 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
                 occupations[:, :, 1] = fermi_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
                 resolution = (occupations.shape[0], occupations.shape[0])
+                # nothing to blur if no gate is swept
+                if volt_limits_g1[0] == volt_limits_g1[1] and volt_limits_g2[0] == volt_limits_g2[1]:
+                    return occupations, lead_transitions
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 if volt_limits_g1[0] == volt_limits_g1[1]:
                     sigma *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
@@ -225,6 +228,9 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
                 occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
                 resolution = (occupations.shape[0], occupations.shape[0])
+                # nothing to blur if no gate is swept
+                if volt_limits_g1[0] == volt_limits_g1[1] and volt_limits_g2[0] == volt_limits_g2[1]:
+                    return occupations, lead_transitions
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 if volt_limits_g1[0] == volt_limits_g1[1]:
                     sigma *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-- 
2.43.0


From 382ad05ad14df29bc97f18aab968e7cf75bc3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 30/38] fix: support pink noise for a single pixel

---
 simcats/distortions/_pink_noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simcats/distortions/_pink_noise.py b/simcats/distortions/_pink_noise.py
index 294c499..43fd81f 100644
--- a/simcats/distortions/_pink_noise.py
+++ b/simcats/distortions/_pink_noise.py
@@ -123,6 +123,9 @@ def pink_gaussian_noise(
         np.ndarray: Original image distorted by pink noise.
 
     """
+    if original.size == 1:
+        # a single value has no spectrum
+        return original + rng.normal(0, 1, size=original.shape) * scale
     noise = cn.powerlaw_psd_gaussian(1, np.prod(original.shape), fmin=fmin, random_state=rng) * scale
     noise = np.reshape(noise, original.shape)
     return original + noise
-- 
2.43.0


From daf619ca18378add3be12c55046e92a47f372156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 31/38] fix: accept horizontal lines given as float in
 is_point_below_line

---
 simcats/support_functions/_linear_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/support_functions/_linear_algebra.py b/simcats/support_functions/_linear_algebra.py
index 35f4ca5..1a3d911 100644
--- a/simcats/support_functions/_linear_algebra.py
+++ b/simcats/support_functions/_linear_algebra.py
@@ -24,7 +24,7 @@ def is_point_below_line(point: Tuple[float, float], line: Union[Tuple[float, flo
     x, y = point
 
     # If the straight line is specified as a single float, it is a horizontal line
-    if isinstance(line, int):
+    if isinstance(line, numbers.Real):
         b = line
         return y < b
     # If the straight line is specified as a tuple (m, b)
@@ -34,7 +34,7 @@ def is_point_below_line(point: Tuple[float, float], line: Union[Tuple[float, flo
         return y < y_line
     else:
         raise ValueError(
-            "The straight line must be specified either as a tuple (m, b) or as a single integer for a horizontal line.")
+            "The straight line must be specified either as a tuple (m, b) or as a single number for a horizontal line.")
 
 
 def line_line_intersection(line1: Union[Sequence, np.ndarray, numbers.Real],
-- 
2.43.0


From b3fe5a9c2d80eccca5ecc75bf7c6841494ea0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 32/38] fix: support pink noise with the maximum fmin for an
 odd number of pixels

---
 simcats/distortions/_pink_noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simcats/distortions/_pink_noise.py b/simcats/distortions/_pink_noise.py
index 43fd81f..bd0a098 100644
--- a/simcats/distortions/_pink_noise.py
+++ b/simcats/distortions/_pink_noise.py
@@ -126,6 +126,9 @@ def pink_gaussian_noise(
     if original.size == 1:
         # a single value has no spectrum
         return original + rng.normal(0, 1, size=original.shape) * scale
+    if fmin <= 0.5:
+        # an odd number of pixels has no component at the frequency 0.5, use the largest frequency that is present
+        fmin = min(fmin, np.fft.rfftfreq(original.size)[-1])
     noise = cn.powerlaw_psd_gaussian(1, np.prod(original.shape), fmin=fmin, random_state=rng) * scale
     noise = np.reshape(noise, original.shape)
     return original + noise
-- 
2.43.0


From eadd5ef76766d32f1a517a0848511f599cbdd137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 33/38] fix: apply the quality multiplier to the distortions of
 sampled configs

---
 .../_GaAs_v1_random_variations_v3_config_sampler.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
index 62366e7..99811f3 100644
--- a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
+++ b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
@@ -80,9 +80,9 @@ def sample_random_variations_v3_config(sensor_type: str = "SensorGeneric",
         raise ValueError(
             f"The parameter sensor_type must be either 'SensorGeneric' or 'SensorScanSensorGeneric'. The supplied value"
             f" '{sensor_type}' is not supported.")
-    config["occupation_distortions"] = sample_occupation_distortions()
-    config["sensor_potential_distortions"] = sample_sensor_potential_distortions()
-    config["sensor_response_distortions"] = sample_sensor_response_distortions()
+    config["occupation_distortions"] = sample_occupation_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_potential_distortions"] = sample_sensor_potential_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_response_distortions"] = sample_sensor_response_distortions(quality_multiplier=quality_multiplier)
     return config
 
 
-- 
2.43.0


From 7878b46da1515a97a985d5038771734780477e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 34/38] fix: do not share the potential offset between sensors
 created with the default offset

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 1b74dd1..4aa3db5 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -373,7 +373,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check datatype of offset_mu_sens
         if isinstance(offset_mu_sens, np.ndarray) and offset_mu_sens.shape == (3,):
-            self.__offset_mu_sens = offset_mu_sens
+            self.__offset_mu_sens = offset_mu_sens.copy()
         elif isinstance(offset_mu_sens, (float, int)):
             self.__offset_mu_sens = np.array([offset_mu_sens, offset_mu_sens, offset_mu_sens])
         else:
-- 
2.43.0


From 60ffc9ead8f981d4291bf3aa9bc6ee07a5402392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 35/38] fix: use a consistent period number at the beginning of
 a period of the TCT function

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index b5e0461..0347ba3 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -5,8 +5,6 @@ The TCTs are used to generate the boundaries/structures for the geometrically si
 @author: f.hader
 """
 
-import math
-
 # used to check if a single x-value was passed to x_eval
 import numbers
 from typing import Union, Optional
@@ -136,8 +134,9 @@ def tct_bezier(
         # retrieve y values for given x_eval
         for x_id, x in zip(ids_wave, x_eval[ids_wave]):
             # detect position (rising/falling flank or bezier/rotated bezier)
-            x_mod_per = np.mod(x, period_length)
-            period_no = math.floor(x / period_length)
+            # (using divmod, so that the period number always fits to the position in the period, even if x is at the
+            # beginning of a period and the division has to be rounded)
+            period_no, x_mod_per = np.divmod(x, period_length)
             if x_mod_per < bezier_length:
                 # bezier at peak/maxima
                 if lut_entries:
-- 
2.43.0


From e5f72f98c83ae8ab33315bd507af8e7838774099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 36/38] fix: deform sensor peaks also if the sensor dot is not
 coupled to sensor gate 1

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 4aa3db5..8fe8be0 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -427,13 +427,13 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         if self.__sensor_peak_function is None:
             return mu_sens
         else:
-            m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
+            direction = self._calc_middle_line_direction()
 
             resp_sum = 0
 
             dist = signed_dist_points_line(points=np.array([[volt_sensor_g1, volt_sensor_g2]]),
                                            line_points=np.array(
-                                               [middle_line_point, middle_line_point + np.array([1, m])]))[0]
+                                               [middle_line_point, middle_line_point + direction]))[0]
 
             for idx, p in enumerate(self.__sensor_peak_function):
                 old_mu0 = p.mu0
@@ -565,6 +565,20 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         sensor_voltages = (target - rest[..., 1:]).dot(np.linalg.inv(self.alpha_sensor_gate[1:]).T)
         return sensor_voltages.dot(self.alpha_sensor_gate[0]) + rest[..., 0]
 
+    def _calc_middle_line_direction(self) -> np.ndarray:
+        """Help method that calculates the direction of the middle line, from which the deformations originate.
+
+        The middle line follows the direction of the sensor peaks (i.e., the sensor dot potential). It is vertical if the
+        sensor dot is not coupled to sensor gate 1.
+
+        Returns:
+            np.ndarray: The direction of the middle line in voltage space.
+        """
+        alpha_g1, alpha_g2 = self.alpha_sensor_gate[0]
+        if alpha_g1 == 0:
+            return np.array([0, np.sign(alpha_g2)])
+        return np.array([1, alpha_g2 / alpha_g1])
+
     def _calc_point_from_barrier_potentials(
             self,
             pot_bar1: float,
@@ -822,8 +836,6 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         coulomb_peak_mask = np.zeros_like(sensor_pot, dtype=np.uint8)
         conductive_mask = np.zeros_like(sensor_pot, dtype=np.uint8)
 
-        m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
-
         # Create array with same voltages tuples with the same resolution as the sensor potential
         if potential.ndim == 3:
             x_values = np.linspace(volt_limits_sensor_g1[0], volt_limits_sensor_g1[-1], sensor_pot.shape[1])
@@ -848,7 +860,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             # Calculate distances from the middle line
             dist_array = signed_dist_points_line(points=xy_array,
                                                  line_points=np.array(
-                                                     [middle_point, middle_point + np.array([1, m])]))
+                                                     [middle_point, middle_point + self._calc_middle_line_direction()]))
 
             # Reshape dist_array to the initial shape (shape of the potential)
             dist_array = dist_array.reshape(sensor_pot.shape)
-- 
2.43.0


From 85928359db77442c5f90fb34501ea383efc436fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 37/38] fix: sensors created with the same peak deformations
 influence each other

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 8fe8be0..b041f30 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -83,14 +83,17 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 is the actual deformation object used for a wavefront.
             """
         self.sensor_peak_function = sensor_peak_function
-        self.sensor_peak_deformations = sensor_peak_deformations
+        # use own copies of the deformations, because every deformation belongs to (and refers to) exactly one sensor
+        self.sensor_peak_deformations = {}
+        if sensor_peak_deformations is not None:
+            for idx, deformation in sensor_peak_deformations.items():
+                self.sensor_peak_deformations[idx] = copy.copy(deformation)
         self.final_rise = final_rise
 
         if self.sensor_peak_function is not None:
             for idx, peak_func in enumerate(self.sensor_peak_function):
-                if sensor_peak_deformations is not None and idx in sensor_peak_deformations:
-                    deformation = sensor_peak_deformations[idx]
-                    deformation.sensor = self
+                if idx in self.sensor_peak_deformations:
+                    self.sensor_peak_deformations[idx].sensor = self
 
         self.alpha_dot = alpha_dot
         self.alpha_gate = alpha_gate
-- 
2.43.0


From ac96ed7e8ee4039ae76591fd45c9b52921a4c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 38/38] fix: scan sensors share the arrays of their (default)
 lever arms

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index b041f30..4430be8 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -245,7 +245,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_dot = np.array([alpha_dot, alpha_dot, alpha_dot])
                 return
             elif alpha_dot.shape == (3, 2):
-                self.__alpha_dot = alpha_dot
+                self.__alpha_dot = alpha_dot.copy()
                 return
         elif alpha_dot is None:
             self.__alpha_dot = np.array([[0, 0], [0, 0], [0, 0]])
@@ -296,7 +296,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_gate = np.array([alpha_gate, alpha_gate, alpha_gate])
                 return
             elif alpha_gate.shape == (3, 2):
-                self.__alpha_gate = alpha_gate
+                self.__alpha_gate = alpha_gate.copy()
                 return
         elif alpha_gate is None:
             self.__alpha_gate = np.array([[0, 0], [0, 0], [0, 0]])
@@ -342,7 +342,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check if alpha_sensor_gate is passed in an acceptable format
         if isinstance(alpha_sensor_gate, np.ndarray) and alpha_sensor_gate.shape == (3, 2):
-            self.__alpha_sensor_gate = alpha_sensor_gate
+            self.__alpha_sensor_gate = alpha_sensor_gate.copy()
             return
 
         # Raise error if none of the cases for valid alpha_sensor_gate formats from before is true
-- 
2.43.0

