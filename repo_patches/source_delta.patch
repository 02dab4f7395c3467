From b2b9720ecf224e04afa048bfdeb53178aac5cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 01/76] fix: fix_range no longer alters its input or returns
 the excluded maximum

---
 ocbpy/ocb_time.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index db915b2..931e45d 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -417,8 +417,8 @@ def fix_range(values, min_val, max_val, val_range=None):
 
     """
 
-    # Cast output as array-like
-    fixed_vals = np.asarray(values)
+    # Cast input as array-like
+    values = np.asarray(values)
 
     # Test input to ensure the maximum is greater than the minimum
     if min_val >= max_val:
@@ -432,6 +432,11 @@ def fix_range(values, min_val, max_val, val_range=None):
     if val_range <= 0.0:
         raise ValueError('Value range must be greater than zero')
 
+    # Initialize the output as a copy, to leave the input unchanged, using a data
+    # type that can hold the adjusted values
+    fixed_vals = np.array(values, dtype=np.result_type(values, min_val,
+                                                       val_range))
+
     # Fix the values, allowing for deviations that are multiples of the
     # value range.  Also propagate NaNs
     ibad = (np.greater_equal(fixed_vals, max_val, where=~np.isnan(fixed_vals))
@@ -449,4 +454,11 @@ def fix_range(values, min_val, max_val, val_range=None):
         ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
                 & ~np.isnan(fixed_vals))
 
+    # Adding the range to a tiny negative offset may round up to the maximum
+    if val_range <= max_val - min_val:
+        ibad = (np.greater_equal(fixed_vals, max_val,
+                                 where=~np.isnan(fixed_vals))
+                & ~np.isnan(fixed_vals))
+        fixed_vals[ibad] = min_val
+
     return fixed_vals
-- 
2.43.0


From 1ba45917dbc978437a3f7ce25a0ce3de24138e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 02/76] fix: year and second of year conversion carries rounded
 seconds over

---
 ocbpy/ocb_time.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index 931e45d..97f5d4f 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -78,12 +78,10 @@ def year_soy_to_datetime(yyyy, soy):
 
     ss = soy - ddd * 86400.0 - hh * 3600.0 - mm * 60.0
 
-    # Define format
-    stime = "{:d}-{:.0f}-{:.0f}-{:.0f}-{:.0f}".format(yyyy, ddd + 1, hh, mm,
-                                                      ss)
-
-    # Convert to datetime
-    dtime = dt.datetime.strptime(stime, "%Y-%j-%H-%M-%S")
+    # Convert to datetime, rounding to the nearest second (which may carry over)
+    dtime = dt.datetime(yyyy, 1, 1) + dt.timedelta(
+        days=float(ddd), hours=float(hh), minutes=float(mm),
+        seconds=float(np.round(ss)))
 
     return dtime
 
-- 
2.43.0


From 61334d33aa49cb57242a8dde4c5322bbe31835c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 03/76] fix: load boundary files that contain a single record

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c72db3b..b3b9f6b 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -369,8 +369,8 @@ class OCBoundary(object):
             return
 
         # Read the OCB data
-        odata = np.rec.array(np.genfromtxt(self.filename, skip_header=hlines,
-                                           dtype=ldtype))
+        odata = np.rec.array(np.atleast_1d(np.genfromtxt(
+            self.filename, skip_header=hlines, dtype=ldtype)))
         oname = list(odata.dtype.names)
 
         # Load the data into the OCBoundary object
-- 
2.43.0


From 668511404e5e72de0de3ed1af3410b912caca9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 04/76] fix: representation of boundary objects without any
 loaded records

---
 ocbpy/_boundary.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index b3b9f6b..ec9fbf4 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -171,6 +171,8 @@ class OCBoundary(object):
         self.rfunc_kwargs = rfunc_kwargs
         self.min_fom = -np.inf
         self.max_fom = np.inf
+        self._stime = stime
+        self._etime = etime
 
         # Get the instrument defaults
         hlines, ocb_cols, datetime_fmt = self.inst_defaults()
@@ -197,15 +199,20 @@ class OCBoundary(object):
         class_name = repr(self.__class__).split("'")[1]
 
         # Get the start and end times
-        stime = None if self.dtime is None else self.dtime[0]
-        etime = None if self.dtime is None else self.dtime[-1]
+        if self.records > 0:
+            stime = self.dtime[0]
+            etime = self.dtime[-1]
+        else:
+            stime = self._stime
+            etime = self._etime
 
         # Format the function representations
         if self.rfunc is None:
             repr_rfunc = repr(self.rfunc)
         else:
+            # If no file was loaded, a single function will not be an array
             rfuncs = [".".join([ff.__module__, ff.__name__])
-                      for ff in self.rfunc]
+                      for ff in np.atleast_1d(self.rfunc)]
 
             if len(set(rfuncs)) == 1:
                 repr_rfunc = rfuncs[0]
@@ -217,7 +224,8 @@ class OCBoundary(object):
         if self.rfunc_kwargs is None:
             repr_rfunc_kwargs = repr(self.rfunc_kwargs)
         else:
-            rfuncs_kwargs = [repr(rkwarg) for rkwarg in self.rfunc_kwargs]
+            rfuncs_kwargs = [repr(rkwarg)
+                             for rkwarg in np.atleast_1d(self.rfunc_kwargs)]
 
             if len(set(rfuncs_kwargs)) == 1:
                 repr_rfunc_kwargs = rfuncs_kwargs[0]
@@ -418,6 +426,8 @@ class OCBoundary(object):
             oname.append("phi_cent")
 
         # Load the required information not contained in odata
+        self._stime = stime
+        self._etime = etime
         self.records = len(dt_list)
         self.dtime = np.array(dt_list)
 
-- 
2.43.0


From 524dfa1370f7f06c63b6269ed6c626c0ecb85db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 05/76] fix: do not alter or keep a reference to coordinate
 inputs

---
 ocbpy/_boundary.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index ec9fbf4..bc0938d 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -617,7 +617,9 @@ class OCBoundary(object):
         if np.any(np.sign(aacgm_lat) != self.hemisphere):
             if np.all(np.sign(aacgm_lat) != self.hemisphere):
                 return ocb_lat, ocb_mlt, r_corr
-            aacgm_lat[np.sign(aacgm_lat) != self.hemisphere] = np.nan
+            # Use a copy to leave the input data unchanged
+            aacgm_lat = np.where(np.sign(aacgm_lat) == self.hemisphere,
+                                 aacgm_lat, np.nan)
 
         # Calculate the center of the OCB
         phi_cent_rad = np.radians(self.phi_cent[self.rec_ind])
@@ -793,9 +795,7 @@ class OCBoundary(object):
         """
 
         # Ensure the boundary longitudes span from 0-360 degrees
-        aacgm_mlt = np.asarray(aacgm_mlt)
-        aacgm_mlt[aacgm_mlt < 0.0] += 24.0
-        aacgm_mlt[aacgm_mlt >= 24.0] -= 24.0
+        aacgm_mlt = ocb_time.fix_range(aacgm_mlt, 0.0, 24.0)
 
         if not hasattr(self, 'aacgm_boundary_mlt'):
             self.aacgm_boundary_mlt = [None for i in range(self.records)]
@@ -844,7 +844,7 @@ class OCBoundary(object):
                 self.aacgm_boundary_lat[i] = self.hemisphere * (90.0 - rad)
 
                 # Save the MLT at this time
-                self.aacgm_boundary_mlt[i] = aacgm_mlt
+                self.aacgm_boundary_mlt[i] = np.array(aacgm_mlt)
 
                 # Set the longitude at this time
                 if set_lon:
-- 
2.43.0


From d0a4b050fcd827818b4d48d8113438312839b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 06/76] fix: set the record index of dual boundaries without
 data

---
 ocbpy/_boundary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index bc0938d..06d642a 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1258,6 +1258,7 @@ class DualBoundary(object):
             self.dtime = None
             self.ocb_ind = None
             self.eab_ind = None
+            self.rec_ind = 0
             return
 
         self.dtime = list()
-- 
2.43.0


From 0d774dae16948800cfc6e9877c5aaf1b3f02d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 07/76] fix: vectors without boundary coordinates stay
 undefined and keep their location

---
 ocbpy/ocb_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 0378157..23f11dc 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -703,6 +703,10 @@ class VectorData(object):
         # Get the angle at the data vector appended by the AACGM and OCB poles
         self.calc_vec_pole_angle()
 
+        # The angle is undefined if the location has no boundary coordinates
+        self.pole_angle = np.where(np.isnan(self.ocb_lat), np.nan,
+                                   self.pole_angle)
+
         # Set the OCB and Vector quadrants
         if np.any(~np.isnan(self.pole_angle)):
             self.define_quadrants()
-- 
2.43.0


From ce3849c486e9573585829b4bc00a8041b9c46219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 08/76] fix: scale scalar vectors after rotating them to
 boundary coordinates

---
 ocbpy/ocb_scaling.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 23f11dc..888eebe 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -801,23 +801,12 @@ class VectorData(object):
 
         # Scale the outputs, if desired
         if self.scale_func is not None:
-            if len(self.ocb_n.shape) == 0:
-                self.ocb_n = np.full(
-                    shape=self.ocb_n.shape, fill_value=self.scale_func(
-                        self.vect_n, self.unscaled_r, self.scaled_r))
-                self.ocb_e = np.full(
-                    shape=self.ocb_e.shape, fill_value=self.scale_func(
-                        self.vect_e, self.unscaled_r, self.scaled_r))
-                self.ocb_z = np.full(
-                    shape=self.ocb_z.shape, fill_value=self.scale_func(
-                        self.vect_z, self.unscaled_r, self.scaled_r))
-            else:
-                self.ocb_n = self.scale_func(self.ocb_n, self.unscaled_r,
-                                             self.scaled_r)
-                self.ocb_e = self.scale_func(self.ocb_e, self.unscaled_r,
-                                             self.scaled_r)
-                self.ocb_z = self.scale_func(self.ocb_z, self.unscaled_r,
-                                             self.scaled_r)
+            self.ocb_n = self.scale_func(self.ocb_n, self.unscaled_r,
+                                         self.scaled_r)
+            self.ocb_e = self.scale_func(self.ocb_e, self.unscaled_r,
+                                         self.scaled_r)
+            self.ocb_z = self.scale_func(self.ocb_z, self.unscaled_r,
+                                         self.scaled_r)
 
         # Calculate the scaled OCB vector magnitude
         self.ocb_mag = np.sqrt(self.ocb_n**2 + self.ocb_e**2 + self.ocb_z**2)
-- 
2.43.0


From 24c386702f7cc160dae7d7467d421f4d41009850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 09/76] fix: sign and angle of vectors aligned with both poles

---
 ocbpy/vectors.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index d176eb7..99d37b4 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -130,8 +130,11 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
 
     # Use the half-angle formula to get the pole angle
     sum_sides = 0.5 * (del_vect + del_dest + del_pole)
-    half_angle = np.sqrt(np.sin(sum_sides) * np.sin(sum_sides - del_pole)
-                         / (np.sin(del_vect) * np.sin(del_dest)))
+    hav_angle = (np.sin(sum_sides) * np.sin(sum_sides - del_pole)
+                 / (np.sin(del_vect) * np.sin(del_dest)))
+
+    # Restrict the values to account for floating point rounding
+    half_angle = np.sqrt(np.clip(hav_angle, 0.0, 1.0))
 
     if pole_angle.shape == ():
         pole_angle = np.degrees(2.0 * np.arccos(half_angle))
@@ -616,9 +619,15 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                 dest_z[ns_mask] = vect_z[ns_mask]
 
         # Determine if the measurement is on or between the poles. This does
-        # not affect the vertical direction
-        sign_mask = (pole_angle == 0.0) & np.greater_equal(
-            vect_lat, pole_lat, where=~np.isnan(vect_lat)) & ~np.isnan(vect_lat)
+        # not affect the vertical direction. The measurement is also between
+        # the poles if it lies poleward of the destination pole on the same
+        # meridian, but is never between them on the opposite meridian
+        del_long = abs(ocb_time.hr2rad(pole_lt - vect_lt, max_range=np.pi))
+        sign_mask = (pole_angle == 0.0) & ~np.isclose(del_long, np.pi) & (
+            np.greater_equal(vect_lat, pole_lat, where=~np.isnan(vect_lat))
+            & ~np.isnan(vect_lat))
+        sign_mask |= (pole_angle == 180.0) & np.isclose(del_long, 0.0,
+                                                        atol=1.0e-5)
 
         if np.any(sign_mask):
             if len(out_shape) == 0:
-- 
2.43.0


From 795a0e43b8163bdd70c86b74853009cf86e7f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 10/76] fix: keep the vertical component of vectors without
 horizontal magnitude

---
 ocbpy/vectors.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 99d37b4..63863e0 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -585,16 +585,20 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
     norm_mask = ~(zero_mask + ns_mask)
 
-    # There's nothing to adjust if there is no magnitude
+    # There's nothing to adjust if there is no horizontal magnitude
     if np.any(zero_mask):
         if len(out_shape) == 0:
             dest_n = 0.0
             dest_e = 0.0
-            dest_z = 0.0
+            dest_z = float(vect_z)
         else:
             dest_n[zero_mask] = 0.0
             dest_e[zero_mask] = 0.0
-            dest_z[zero_mask] = 0.0
+
+            if len(vect_z.shape) == 0:
+                dest_z[zero_mask] = vect_z
+            else:
+                dest_z[zero_mask] = vect_z[zero_mask]
 
     # The measurement is aligned with the base and destination poles
     if np.any(ns_mask):
-- 
2.43.0


From 6f7023dea06b03ac95535e2b17aba537a5b45691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 11/76] fix: adjusted vectors keep the input shape and are
 undefined at undefined locations

---
 ocbpy/vectors.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 63863e0..e9a31df 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -585,7 +585,9 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
     norm_mask = ~(zero_mask + ns_mask)
 
-    # There's nothing to adjust if there is no horizontal magnitude
+    # There's nothing to adjust if there is no horizontal magnitude, unless the
+    # location is undefined
+    zero_mask = zero_mask & ~np.isnan(pole_angle)
     if np.any(zero_mask):
         if len(out_shape) == 0:
             dest_n = 0.0
@@ -706,13 +708,11 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                     vsigns['east'] * vmag * np.sin(dest_naz_angle)))
                 dest_z = np.full(shape=out_shape, fill_value=vz)
             else:
-                nval = vsigns['north'][norm_mask] * vmag * np.cos(
+                dest_n[norm_mask] = vsigns['north'][norm_mask] * vmag * np.cos(
                     dest_naz_angle)[norm_mask]
-                dest_n = np.full(shape=nval.shape, fill_value=nval)
-                dest_e = np.full(shape=nval.shape, fill_value=(
-                    vsigns['east'][norm_mask] * vmag * np.sin(
-                        dest_naz_angle)[norm_mask]))
-                dest_z = np.full(shape=nval.shape, fill_value=vz)
+                dest_e[norm_mask] = vsigns['east'][norm_mask] * vmag * np.sin(
+                    dest_naz_angle)[norm_mask]
+                dest_z[norm_mask] = vz
         else:
             dest_n[norm_mask] = vsigns['north'][norm_mask] * vmag * np.cos(
                 dest_naz_angle)[norm_mask]
@@ -720,4 +720,8 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                 dest_naz_angle)[norm_mask]
             dest_z[norm_mask] = vz
 
+        # The vertical component is undefined if the rotation is undefined
+        if len(vect_z.shape) == 0:
+            dest_z = np.where(norm_mask & np.isnan(dest_n), np.nan, dest_z)
+
     return dest_n, dest_e, dest_z
-- 
2.43.0


From f60bd6d7cbe517a2b15a7c2f883cacc5adab15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 12/76] fix: vector objects keep their own copies of the input
 arrays

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 888eebe..3e7f03b 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -283,7 +283,7 @@ class VectorData(object):
 
         """
         # Determine the desired output type
-        out_val = np.asarray(value)
+        out_val = np.array(value)
         type_str = str(out_val.dtype)
 
         if type_str.find('int') < 0 and type_str.find('float') < 0:
-- 
2.43.0


From 964cda6fc84db91ccf962f9bd2333717b1df0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 13/76] fix: vector conversion uses the vector's own boundary
 index and tracing method

---
 ocbpy/ocb_scaling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 3e7f03b..d17645d 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -643,9 +643,10 @@ class VectorData(object):
 
         """
         # Update the data values to be in magnetic coordinates
-        dtime = ocb.dtime[ocb.rec_ind] if self.ocb_ind.shape == () else [
+        dtime = ocb.dtime[int(self.ocb_ind)] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
-        self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
+        self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
+                                       trace_method=trace_method)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
@@ -655,7 +656,7 @@ class VectorData(object):
             # dependent, we can't call this function with multiple OCB/EABs
             if self.ocb_ind.shape == ():
                 # Initialise the boundary index
-                ocb.rec_ind = self.ocb_ind
+                ocb.rec_ind = int(self.ocb_ind)
 
                 # Calculate the coordinates and save the output
                 out_coord = ocb.normal_coord(self.lat, self.lt,
@@ -671,7 +672,8 @@ class VectorData(object):
                     if self.ocb_ind.shape == self.dat_ind.shape:
                         out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
                                                      coords=self.loc_coord,
-                                                     height=self.height[i])
+                                                     height=self.height[i],
+                                                     method=trace_method)
                     else:
                         out_coord = ocb.normal_coord(self.lat, self.lt,
                                                      coords=self.loc_coord,
-- 
2.43.0


From 13ccf9baa04b4095bfc8fbe3b865982fcc75fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 14/76] fix: convert geographic vectors for every mix of scalar
 and array input

---
 ocbpy/ocb_scaling.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index d17645d..e9daa93 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -648,6 +648,10 @@ class VectorData(object):
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
                                        trace_method=trace_method)
 
+        # The vector components may have been magnetic from the start, ensure
+        # the location is as well
+        self.update_loc_coords(dtime, trace_method=trace_method)
+
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
         if(np.all(np.isnan(self.ocb_lat)) or np.all(np.isnan(self.ocb_mlt))
@@ -669,7 +673,7 @@ class VectorData(object):
                 for i, ocb.rec_ind in enumerate(self.ocb_ind):
                     # Handle time different, depending on the OCB and
                     # data shapes. Calcualte the coordinates and save the output
-                    if self.ocb_ind.shape == self.dat_ind.shape:
+                    if self.ocb_ind.shape == self.lat.shape:
                         out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
                                                      coords=self.loc_coord,
                                                      height=self.height[i],
@@ -976,8 +980,8 @@ class VectorData(object):
                     new_lt = ocb_time.glon2slt(new_lon, dtime)
 
             # Update the location attributes
-            self.lat = np.asarray(new_lat)
-            self.lt = np.asarray(new_lt)
+            self.lat = np.asarray(new_lat).reshape(self.lat.shape)
+            self.lt = np.asarray(new_lt).reshape(self.lt.shape)
             self.loc_coord = coord
 
         return
@@ -1067,9 +1071,12 @@ class VectorData(object):
                     mag_pole_slt.append(ocb_time.glon2slt(out[1], val))
                     mag_pole_glat.append(out[0])
             else:
-                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon(
-                    hemisphere * 90.0, 0.0, self.height, dtime,
-                    method_code='|'.join(methods))
+                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon_arr(
+                    np.full(shape=self.height.shape,
+                            fill_value=hemisphere * 90.0), 0.0, self.height,
+                    dtime, method_code='|'.join(methods))
+                mag_pole_glat = mag_pole_glat.reshape(self.height.shape)
+                mag_pole_lon = mag_pole_lon.reshape(self.height.shape)
                 mag_pole_slt = ocb_time.glon2slt(mag_pole_lon, dtime)
 
             mag_pole_glat = np.asarray(mag_pole_glat)
@@ -1089,7 +1096,7 @@ class VectorData(object):
 
             # Adjust the geographic vector to AACGM coordinates
             mag_n, mag_e, mag_z = vectors.adjust_vector(
-                mag_lt, mag_lat, self.vect_n, self.vect_e, self.vect_z,
+                geo_lt, geo_lat, self.vect_n, self.vect_e, self.vect_z,
                 vect_quad, mag_pole_slt, mag_pole_glat, pole_angle, pole_quad)
 
             # Assign the new vector data and coordinate specification
-- 
2.43.0


From 8ec2c1fe8c4fa6560cb60aefd43a52a0667367c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 15/76] fix: rotation of southern hemisphere vectors from
 geographic to magnetic

---
 ocbpy/ocb_scaling.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index e9daa93..632074c 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1082,6 +1082,12 @@ class VectorData(object):
             mag_pole_glat = np.asarray(mag_pole_glat)
             mag_pole_slt = np.asarray(mag_pole_slt)
 
+            # Magnetic north points away from the southern pole, which is
+            # towards the point on the opposite side of the Earth
+            if hemisphere < 0:
+                mag_pole_glat = -mag_pole_glat
+                mag_pole_slt = mag_pole_slt + 12.0
+
             # Get the angle at the data vector appended by the AACGM and
             # geographic poles
             pole_angle = vectors.calc_vec_pole_angle(
-- 
2.43.0


From 98c2d702b52849be4b4d9e059523c182e4f10ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 16/76] fix: undefined values do not satisfy record selection
 criteria

---
 ocbpy/_boundary.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 06d642a..427f92e 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -515,19 +515,23 @@ class OCBoundary(object):
 
             for ckey in kwargs.keys():
                 test_val = getattr(self, ckey)[self.rec_ind]
-                if kwargs[ckey][0] == "min" and test_val <= kwargs[ckey][1]:
+                if kwargs[ckey][0] == "min" and not (
+                        test_val > kwargs[ckey][1]):
                     good = False
                     break
-                elif kwargs[ckey][0] == "mineq" and test_val < kwargs[ckey][1]:
+                elif kwargs[ckey][0] == "mineq" and not (
+                        test_val >= kwargs[ckey][1]):
                     good = False
                     break
                 elif kwargs[ckey][0] == "equal" and test_val != kwargs[ckey][1]:
                     good = False
                     break
-                elif kwargs[ckey][0] == "maxeq" and test_val > kwargs[ckey][1]:
+                elif kwargs[ckey][0] == "maxeq" and not (
+                        test_val <= kwargs[ckey][1]):
                     good = False
                     break
-                elif kwargs[ckey][0] == "max" and test_val >= kwargs[ckey][1]:
+                elif kwargs[ckey][0] == "max" and not (
+                        test_val < kwargs[ckey][1]):
                     good = False
                     break
 
-- 
2.43.0


From b6616516734ce63fd9caa3d62ca40da88f0db652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 17/76] fix: pairing dual boundaries does not alter the
 selection dictionaries

---
 ocbpy/_boundary.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 427f92e..07a7732 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1274,16 +1274,14 @@ class DualBoundary(object):
         self.eab.rec_ind = -1
 
         # Get the good OCB indices
-        if ocb_kwargs is None:
-            ocb_kwargs = {}
+        ocb_kwargs = {} if ocb_kwargs is None else dict(ocb_kwargs)
         ocb_kwargs['min_merit'] = ocb_min_merit
         ocb_kwargs['max_merit'] = ocb_max_merit
         good_ocb = cycle_boundary.retrieve_all_good_indices(self.ocb,
                                                             **ocb_kwargs)
 
         # Initialize the EAB good index selection options
-        if eab_kwargs is None:
-            eab_kwargs = {}
+        eab_kwargs = {} if eab_kwargs is None else dict(eab_kwargs)
         eab_kwargs['min_merit'] = eab_min_merit
         eab_kwargs['max_merit'] = eab_max_merit
 
-- 
2.43.0


From 4d0cdb27ca34be1a55ae532b846b0f95daea49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 18/76] fix: each poleward record is paired with at most one
 equatorward record

---
 ocbpy/_boundary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 07a7732..fade53e 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1299,6 +1299,9 @@ class DualBoundary(object):
                 self.dtime.append(self.ocb.dtime[good_ocb[iocb]])
                 self.ocb_ind.append(good_ocb[iocb])
                 self.eab_ind.append(self.eab.rec_ind)
+
+                # Each OCB record may only be used once
+                iocb += 1
             else:
                 iocb = None
 
-- 
2.43.0


From d67ebafa6c27498028970f883da8de0ab35d4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 19/76] fix: nearest boundary search continues past equally
 close records

---
 ocbpy/cycle_boundary.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 34eb1df..b9fd4f4 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -182,7 +182,7 @@ def match_data_ocb(ocb, dat_dtime, idat=0, max_tol=60, min_merit=None,
         elif sdiff > max_tol:
             # Cycle to the next value if no OCB values were close enough
             logger.info("".join(["no OCB data available within [",
-                                 "{:d} s] of input measurement".format(max_tol),
+                                 "{:} s] of input measurement".format(max_tol),
                                  " at [{:}]".format(dat_dtime[idat])]))
             idat += 1
         else:
@@ -195,9 +195,12 @@ def match_data_ocb(ocb, dat_dtime, idat=0, max_tol=60, min_merit=None,
                 sdiff = (ocb.dtime[ocb.rec_ind]
                          - dat_dtime[idat]).total_seconds()
 
-                while abs(sdiff) < abs(last_sdiff):
-                    last_sdiff = sdiff
-                    last_iocb = ocb.rec_ind
+                # Continue past any records that are equally close
+                while (ocb.rec_ind < ocb.records
+                       and abs(sdiff) <= abs(last_sdiff)):
+                    if abs(sdiff) < abs(last_sdiff):
+                        last_sdiff = sdiff
+                        last_iocb = ocb.rec_ind
                     cycle_method(**cycle_kwargs)
                     if ocb.rec_ind < ocb.records:
                         sdiff = (ocb.dtime[ocb.rec_ind]
@@ -214,7 +217,7 @@ def match_data_ocb(ocb, dat_dtime, idat=0, max_tol=60, min_merit=None,
     # Return from the last loop
     if idat == 0 and abs(sdiff) > max_tol:
         logger.info("".join(["no OCB data available within ",
-                             "[{:d} s] of first measurement ".format(max_tol),
+                             "[{:} s] of first measurement ".format(max_tol),
                              "[{:}]".format(dat_dtime[idat])]))
         idat = None
 
-- 
2.43.0


From 3c090770f02b22194d7c2afa8c8969f7400861fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 20/76] fix: discard boundary locations and results from a
 previous vector conversion

---
 ocbpy/ocb_scaling.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 632074c..80e1856 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -309,6 +309,18 @@ class VectorData(object):
             ocb_val = np.full(shape=self.ocb_ind.shape, fill_value=ocb_val)
 
         self.__setattr__(ocb_name, ocb_val)
+
+        # This location was provided by the user until `set_ocb` updates it
+        self._calc_ocb_loc = False
+        return
+
+    def _clear_ocb_loc(self):
+        """Clear the boundary locations that were calculated by `set_ocb`."""
+        if getattr(self, '_calc_ocb_loc', False):
+            self._ocb_lat = np.full(shape=self.ocb_ind.shape, fill_value=np.nan)
+            self._ocb_mlt = np.full(shape=self.ocb_ind.shape, fill_value=np.nan)
+            self._r_corr = np.full(shape=self.ocb_ind.shape, fill_value=np.nan)
+            self._calc_ocb_loc = False
         return
 
     def _dat_attr_setter(self, dat_name, dat_val):
@@ -492,6 +504,7 @@ class VectorData(object):
             self._dat_ind = dat_ind
         else:
             self._dat_ind = dat_ind
+            self._clear_ocb_loc()
 
             # Test the data and reset if necessary
             self._test_update_vector_shape()
@@ -518,6 +531,7 @@ class VectorData(object):
             self._ocb_ind = ocb_ind
         else:
             self._ocb_ind = ocb_ind
+            self._clear_ocb_loc()
 
             # Test the boundaries and reset if necessary
             try:
@@ -616,6 +630,8 @@ class VectorData(object):
         self.ocb_e = np.full(shape=self.vshape, fill_value=np.nan)
         self.ocb_z = np.full(shape=self.vshape, fill_value=np.nan)
         self.ocb_mag = np.full(shape=self.vshape, fill_value=np.nan)
+        self.unscaled_r = np.full(shape=self.vshape, fill_value=np.nan)
+        self.scaled_r = np.full(shape=self.vshape, fill_value=np.nan)
 
         # Assign the default pole locations, relative angles, and quadrants
         self.ocb_quad = np.zeros(shape=self.vshape)
@@ -652,6 +668,10 @@ class VectorData(object):
         # the location is as well
         self.update_loc_coords(dtime, trace_method=trace_method)
 
+        # Discard any results from a previous conversion
+        self.clear_data()
+        self._clear_ocb_loc()
+
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
         if(np.all(np.isnan(self.ocb_lat)) or np.all(np.isnan(self.ocb_mlt))
@@ -685,6 +705,8 @@ class VectorData(object):
                                                      method=trace_method)
                     self._assign_normal_coord_output(out_coord, i)
 
+            self._calc_ocb_loc = True
+
         # Exit if the OCB coordinates can't be calculated at this location
         if(np.all(np.isnan(self.ocb_lat)) or np.all(np.isnan(self.ocb_mlt))
            or np.all(np.isnan(self.r_corr))):
-- 
2.43.0


From 4ccfe57aa6705539da0fcae2637b1ff4216dc4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 21/76] fix: undefined vectors are not rotated

---
 ocbpy/vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index e9a31df..49abc03 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -583,7 +583,8 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     # Determine the special case assignments
     zero_mask = (vect_n == 0.0) & (vect_e == 0.0)
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
-    norm_mask = ~(zero_mask + ns_mask)
+    norm_mask = ~(zero_mask + ns_mask) & ~np.isnan(
+        vect_n + vect_e + pole_angle)
 
     # There's nothing to adjust if there is no horizontal magnitude, unless the
     # location is undefined
-- 
2.43.0


From 3b7d9c52b74887d6dd67f931644e4171a5361d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 22/76] fix: file conversion ends when no more data can be
 matched

---
 ocbpy/instruments/supermag.py | 6 ++++--
 ocbpy/instruments/vort.py     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 19beee6..3a9dc50 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -149,12 +149,14 @@ def supermag2ascii_ocb(smagfile, outfile, hemisphere=0, ocb=None,
         nmag = mdata['DATETIME'].shape[0]
 
         # Cycle through the data, matching SuperMAG and OCB records
-        while imag < nmag and ocb.rec_ind < ocb.records:
+        while (imag is not None and imag < nmag
+               and ocb.rec_ind < ocb.records):
             imag = ocbpy.match_data_ocb(ocb, mdata['DATETIME'], idat=imag,
                                         max_tol=max_sdiff, min_merit=min_merit,
                                         max_merit=max_merit, **kwargs)
 
-            if imag < nmag and ocb.rec_ind < ocb.records:
+            if (imag is not None and imag < nmag
+                    and ocb.rec_ind < ocb.records):
                 # Get all of the points for this time pairing
                 itime = np.where(mdata['DATETIME'] == mdata['DATETIME'][imag])
 
diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 3ce7cf7..a2f9df4 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -173,12 +173,14 @@ def vort2ascii_ocb(vortfile, outfile, hemisphere=0, ocb=None,
         num_vort = vdata['DATETIME'].shape[0]
 
         # Cycle through the data, matching vorticity and OCB records
-        while ivort < num_vort and ocb.rec_ind < ocb.records:
+        while (ivort is not None and ivort < num_vort
+               and ocb.rec_ind < ocb.records):
             ivort = ocbpy.match_data_ocb(ocb, vdata['DATETIME'], idat=ivort,
                                          max_tol=max_sdiff, min_merit=min_merit,
                                          max_merit=max_merit, **kwargs)
 
-            if ivort < num_vort and ocb.rec_ind < ocb.records:
+            if (ivort is not None and ivort < num_vort
+                    and ocb.rec_ind < ocb.records):
                 # Use the indexed OCB to convert the AACGM grid coordinate to
                 # one related to the OCB
                 nout = ocb.normal_coord(vdata['CENTRE_MLAT'][ivort],
-- 
2.43.0


From 56907e774d7dd353948c734b7af448e2c9b92ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 23/76] fix: SuperMAG latitude fill values

---
 ocbpy/instruments/supermag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 3a9dc50..808b90c 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -304,7 +304,7 @@ def load_supermag_ascii_data(filename):
         else:
             out[k] = np.array(out[k])
 
-            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'BZ']:
+            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'MLAT', 'BZ']:
                 out[k][out[k] == fill_val] = np.nan
 
     return header, out
-- 
2.43.0


From b9ff12efa6c06841c7f320c16b62a15dd7a1600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 24/76] fix: pysat conversion ends when no more data can be
 matched

---
 ocbpy/instruments/pysat_instruments.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1c139f8..2826275 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -432,13 +432,15 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         ref_r = 90.0 - abs(ocb.ocb.boundary_lat)
 
-    while idat < ndat and ocb.rec_ind < ocb.records:
+    while (idat is not None and idat < ndat
+           and ocb.rec_ind < ocb.records):
         idat = ocbpy.match_data_ocb(ocb, pysat_inst.index[uind],
                                     idat=idat, max_tol=max_sdiff,
                                     min_merit=min_merit, max_merit=max_merit,
                                     **kwargs)
 
-        if idat < ndat and ocb.rec_ind < ocb.records:
+        if (idat is not None and idat < ndat
+                and ocb.rec_ind < ocb.records):
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
             if len(dat_coords) > 1:
-- 
2.43.0


From 0fb9fbfecea97bf3999dc0690e70af72316d31f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 25/76] fix: adding boundary data to pysat does not alter the
 name inputs

---
 ocbpy/instruments/pysat_instruments.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 2826275..1df8507 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -128,15 +128,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                               'scale_func': local_scale_func}}
 
     """
-    # Test the input
-    if evar_names is None:
-        evar_names = []
-
-    if curl_evar_names is None:
-        curl_evar_names = []
-
-    if vector_names is None:
-        vector_names = {}
+    # Test the input, using copies of any input that will be updated
+    evar_names = [] if evar_names is None else list(evar_names)
+    curl_evar_names = [] if curl_evar_names is None else list(curl_evar_names)
+    vector_names = {} if vector_names is None else {
+        vkey: dict(vector_names[vkey]) for vkey in vector_names.keys()}
 
     if not isinstance(pysat_inst, pysat.Instrument):
         raise ValueError('unknown class, expected pysat.Instrument')
-- 
2.43.0


From ebcb3658cea56c0fd198c49deeff9e471abcc321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 26/76] fix: settings of one pysat vector are not carried over
 to the next

---
 ocbpy/instruments/pysat_instruments.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1df8507..fb00214 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -482,10 +482,9 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                   "loc_coord": loc_coord,
                                   "vect_coord": vect_coord,
                                   "height": height[iout]}
-                vector_init = dict(vector_default)
-                vshape = list()
-
                 for eattr in vector_names.keys():
+                    vector_init = dict(vector_default)
+                    vshape = list()
                     oattr = "{:s}_{:s}".format(eattr, bname)
                     for ikey in vector_names[eattr].keys():
                         # Not all vector names are DataFrame names
-- 
2.43.0


From e1178dd5d2aa9166c42a78907a6d2a6dacf72a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 27/76] fix: southern hemisphere mask of labelled-array pysat
 data

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index fb00214..986d23a 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -322,7 +322,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         combo_shape = [pysat_inst.index.shape[0]]
     else:
         nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
-                                         >= hemisphere)
+                                         == hemisphere)
         finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
             'variable'))
         dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
-- 
2.43.0


From 1c601998d3a28d7859c6a4af3b2893e5045c1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 28/76] fix: default boundary selection for pysat data

---
 ocbpy/instruments/pysat_instruments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 986d23a..7b62bd9 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -191,11 +191,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             if ocbfile.lower() in ['eab', 'ocb', 'dual']:
                 ocbfile = "default"
 
-        if fileroot.find("ocb") > 0 and fileroot.find("eab") < 0:
+        if fileroot.find("ocb") >= 0 and fileroot.find("eab") < 0:
             # Initialize the OCBoundary object
             ocb = ocbpy.OCBoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-        elif fileroot.find("ocb") < 0 and fileroot.find("eab") > 0:
+        elif fileroot.find("ocb") < 0 and fileroot.find("eab") >= 0:
             # Initialize the EABoundary object
             ocb = ocbpy.EABoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-- 
2.43.0


From 9c2ba1bccecd5b784eb87c66a854253c8a2cab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 29/76] fix: heights of reverted dual boundary locations

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index fade53e..e2b934c 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1694,7 +1694,7 @@ class DualBoundary(object):
 
                 # Convert from magnetic coordinates to geo coordinates
                 lat[imag], lon, _ = aacgmv2.convert_latlon_arr(
-                    lat[imag], lon, height, self.dtime[self.rec_ind], method)
+                    lat[imag], lon, height[imag], self.dtime[self.rec_ind], method)
 
                 # Convert from longitude to solar local time
                 lt[imag] = ocb_time.glon2slt(lon, self.dtime[self.rec_ind])
-- 
2.43.0


From 3ec913d5725ea82a5e9e619a7ad33eb1a1cf3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 30/76] fix: revert dual boundary locations without a current
 record

---
 ocbpy/_boundary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index e2b934c..7805a03 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1610,6 +1610,10 @@ class DualBoundary(object):
             if len(ocb_lat) == len(iocb):
                 is_ocb = True
 
+        # The other regions are undefined without a good record
+        if self.rec_ind < 0 or self.rec_ind >= self.records:
+            is_ocb = True
+
         # Continue calculating the output for the other regions, if needed
         if not is_ocb:
             # Ensure the AACGM MLT was provided on input
-- 
2.43.0


From 0256886e2273feeb68547f1d803ccab70fdbda1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 31/76] fix: locations on the poleward boundary fall into a
 region

---
 ocbpy/_boundary.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 7805a03..080ed30 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1469,17 +1469,20 @@ class DualBoundary(object):
                         & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))[0]
         iout = np.where(abs(aacgm_lat) < abs(eab_aacgm_boundary))[0]
 
-        # Test to ensure that all points fall into a region
-        iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-        if len(iocb) + len(imid) + len(iout) < len(aacgm_lat):
+        # Test to ensure that all points fall into a region, allowing for the
+        # floating point rounding of locations that are on the boundary
+        iocb = np.where((abs(ocb_lat) >= abs(self.ocb.boundary_lat))
+                        | np.isclose(ocb_lat, self.ocb.boundary_lat, rtol=0.0,
+                                     atol=1.0e-8))[0]
+        ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
+                and i not in imid and i not in iout]
+        if len(ibad) > 0:
             msg = "not all points fall into a boundary region"
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
                     eab_aacgm_boundary).any():
                 msg += ", boundaries are poorly defined"
             logger.warning(msg)
 
-            ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
-                    and i not in imid and i not in iout]
             bound_lat[ibad] = np.nan
 
         if len(imid) > 0:
-- 
2.43.0


From bedd72ded47cf1ec5ce6fdb090e8f6b16bc86ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 32/76] fix: badly named files in the boundary directory do not
 stop the others

---
 ocbpy/boundaries/files.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index cbb3ce6..d368dbd 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -87,6 +87,12 @@ def get_boundary_files(bound='ocb'):
            and bfile.find(".py") < 0 and bfile.find("README") < 0
            and bfile[-3:].lower() == bound.lower()):
             file_info = bfile.lower()[:-4].split("_")
+
+            if len(file_info) < 2 or file_info[1] not in hemi.keys():
+                ocbpy.logger.warning(
+                    'Unknown boundary file present: [{:s}]'.format(bfile))
+                continue
+
             boundary_files[bfile] = {"instrument": file_info[0],
                                      "hemisphere": hemi[file_info[1]]}
 
@@ -99,7 +105,7 @@ def get_boundary_files(bound='ocb'):
                         file_info[2], '%Y%m%d')
                     boundary_files[bfile]["etime"] = dt.datetime.strptime(
                         file_info[3], '%Y%m%d')
-                except ValueError as verr:
+                except (IndexError, ValueError) as verr:
                     err = 'Unknown boundary file present: [{:s}]\n{:}'.format(
                         bfile, verr)
                     ocbpy.logger.warning(err)
-- 
2.43.0


From b9032fcf89be0c3373da2e3f65c6f2823790b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 33/76] fix: choice of default boundary file does not depend on
 the directory order

---
 ocbpy/boundaries/files.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index d368dbd..6fc8193 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -177,7 +177,9 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
             if bdict['instrument'] in inst:
                 # Select by time
                 if(stime is None or etime is None
-                   or (stime <= bdict['etime'] and etime >= bdict['stime'])):
+                   or ('stime' in bdict.keys() and 'etime' in bdict.keys()
+                       and stime <= bdict['etime']
+                       and etime >= bdict['stime'])):
                     good_files.append(bfile)
 
     # Get the default file and instrument (returning at most one)
@@ -198,11 +200,14 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
         else:
             instrument = boundary_files[good_files[0]]['instrument']
     else:
-        # Rate files by instrument
+        # Rate files by instrument, using the name to choose between files with
+        # the same rating so that the choice doesn't depend on the file order
         default_inst = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
-        ordered_files = {default_inst.index(boundary_files[bb]['instrument']):
-                         bb for bb in good_files}
-        bfile = ordered_files[min(ordered_files.keys())]
+        ordered_files = [
+            (default_inst.index(boundary_files[bb]['instrument'])
+             if boundary_files[bb]['instrument'] in default_inst
+             else len(default_inst), bb) for bb in good_files]
+        bfile = min(ordered_files)[1]
         default_file = os.path.join(boundary_dir, bfile)
         if boundary_files[bfile]['instrument'] in short_to_long.keys():
             instrument = short_to_long[boundary_files[bfile]['instrument']]
-- 
2.43.0


From 72ab21a07cc853c5a23988a59a7653399cf9ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 34/76] fix: restore the initial output streams whatever the
 download does

---
 ocbpy/boundaries/dmsp_ssj_files.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 1f58bc4..8aeafc7 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -110,15 +110,19 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
 
     # Download the zenodo archive, capturing the output
     zenodo_io = StringIO()
-    sys.stdout = zenodo_io
-    sys.stderr = zenodo_io
-
+    init_stdout = sys.stdout
+    init_stderr = sys.stderr
     zenodo_checksum = os.path.join(out_dir, 'md5sums.txt')
-    zenodo_get.zenodo_get([doi, '-o', out_dir])
+
+    try:
+        sys.stdout = zenodo_io
+        sys.stderr = zenodo_io
+        zenodo_get.zenodo_get([doi, '-o', out_dir])
+    finally:
+        sys.stdout = init_stdout
+        sys.stderr = init_stderr
 
     # Parse the output and retrieve files from the zip archive
-    sys.stdout = sys.__stdout__
-    sys.stderr = sys.__stderr__
     zen_msg = zenodo_io.getvalue()
     zen_split = zen_msg.split()
 
-- 
2.43.0


From d77589ef9765fba5be274464f34097f330987575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 35/76] fix: download link without a zip archive raises an
 error

---
 ocbpy/boundaries/dmsp_ssj_files.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 8aeafc7..d0ca41c 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -141,6 +141,9 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
         # If the archive is already available, message may differ
         zip_name = os.path.split(zen_split[link_ind])
         while zip_name[-1].find(".zip") <= 0:
+            if len(zip_name[0].strip(os.sep)) == 0:
+                raise ValueError('no zip archive in link')
+
             zip_name = os.path.split(zip_name[0])
 
         # Set the archive name
-- 
2.43.0


From 97abcce5f316f1e30e7bf3f03ade328a7ee44ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 36/76] fix: formatted DMSP SSJ files are written beside input
 in any directory

---
 ocbpy/boundaries/dmsp_ssj_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index d0ca41c..7e3895f 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -313,7 +313,10 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
     out_head = "#sc date time r x y fom x_1 y_1 x_2 y_2\n"
 
     # Specify the output file information
-    outfile_prefix = os.path.commonprefix(list(csv_files)).split('-f')[0]
+    outfile_prefix = os.path.commonprefix(list(csv_files))
+    outfile_prefix = os.path.join(
+        os.path.split(outfile_prefix)[0],
+        os.path.split(outfile_prefix)[1].split('-f')[0])
     filename_sec = os.path.split(
         csv_files[0])[-1].split('dmsp-f')[-1].split('_')
     sdate = filename_sec[3]
-- 
2.43.0


From a9852100526b544518ee34807fd1c76b7ddbd3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 37/76] fix: unreadable and single-pass DMSP SSJ files do not
 stop formatting

---
 ocbpy/boundaries/dmsp_ssj_files.py | 38 ++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 7e3895f..e2ab878 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -309,6 +309,13 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
     # Initialize the file lists
     bad_files = list()
 
+    # Set the required input columns
+    need_cols = ['hemisphere', 'FOM']
+    need_cols.extend(['{:s} {:s}{:d}'.format(col, bb, i)
+                      for col in ['UTSec', 'SC_GEOCENTRIC_LAT',
+                                  'SC_GEOCENTRIC_LON']
+                      for bb in bound_prefix.keys() for i in [1, 2]])
+
     # Initialize the output header
     out_head = "#sc date time r x y fom x_1 y_1 x_2 y_2\n"
 
@@ -351,19 +358,26 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
             file_date = dt.datetime.strptime(filename_sec[3], '%Y%m%d')
 
             # Get the header line for the data and determine the number of
-            # comment lines preceeding the header
-            skiprows = 1
-            with open(infile, 'r') as fpin:
-                head_line = fpin.readline()
-                while head_line.find("#") == 0:
-                    skiprows += 1
+            # comment lines preceeding the header, then load the file data
+            try:
+                skiprows = 1
+                with open(infile, 'r') as fpin:
                     head_line = fpin.readline()
-
-            header_list = head_line.split("\n")[0].split(",")
-
-            # Load the file data
-            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',')
-            if len(data.shape) != 2 or data.shape[1] != len(header_list):
+                    while head_line.find("#") == 0:
+                        skiprows += 1
+                        head_line = fpin.readline()
+
+                header_list = head_line.split("\n")[0].split(",")
+                data = np.loadtxt(infile, skiprows=skiprows, delimiter=',',
+                                  ndmin=2)
+            except ValueError as verr:
+                ocbpy.logger.warning("unable to read input file: {:}\n{:}".format(
+                    infile, verr))
+                header_list = list()
+                data = np.empty(shape=(0, 0))
+
+            if(data.shape[0] == 0 or data.shape[1] != len(header_list)
+               or not np.all([col in header_list for col in need_cols])):
                 bad_files.append(infile)
             else:
                 # Establish the desired data indices
-- 
2.43.0


From b341446076f45493da55eef69abc65dd859ba196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 38/76] fix: loading ASCII data does not alter the column and
 header lists

---
 ocbpy/instruments/general.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 5afe141..6b68ff3 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -106,14 +106,12 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     if datetime_cols is None:
         datetime_cols = list()
 
-    if int_cols is None:
-        int_cols = list()
+    int_cols = list() if int_cols is None else list(int_cols)
 
     if str_cols is None:
         str_cols = list()
 
-    if header is None:
-        header = list()
+    header = list() if header is None else list(header)
 
     # Test to ensure the file is small enough to read in.  Python can only
     # allocate 2GB of data.  If you load something larger, python will crash
-- 
2.43.0


From ca949d5ce8ccd3c9a24e484e4c20a0b54280e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 39/76] fix: year and second of year columns may be anywhere in
 ASCII data

---
 ocbpy/instruments/general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 6b68ff3..d031c1b 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -132,11 +132,11 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
         if datetime_fmt.upper().find("YEAR") >= 0:
             ipart = datetime_fmt.upper().find("YEAR")
             case_part = datetime_fmt[ipart:ipart + 4]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
         if datetime_fmt.upper().find("SOY") >= 0:
             ipart = datetime_fmt.upper().find("SOY")
             case_part = datetime_fmt[ipart:ipart + 3]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
 
     # Open the data file and read the header rows
     with open(filename, "r") as fin:
-- 
2.43.0


From 781843f23a445a1d49a85b8241d845474b105f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 40/76] fix: load ASCII data with a single row or no rows

---
 ocbpy/instruments/general.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index d031c1b..554ea1c 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -193,6 +193,11 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     # Open the datafile and read the data rows
     temp = np.genfromtxt(filename, skip_header=hlines, dtype=str, **gft_kwargs)
 
+    # Ensure files with a single row or a single column are handled by row
+    if temp.ndim < 2:
+        temp = temp.reshape((-1, 1)) if nhead == 1 else temp.reshape(
+            (-1, temp.size if temp.size > 0 else nhead))
+
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
         #
@@ -240,16 +245,13 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
                     out[dt_keys[idt]].append(ftime)
                 else:
                     # Save the output data without any manipulation
-                    try:
-                        out[name].append(line[num].astype(ldtype[num]))
-                    except AttributeError:
-                        out[name].append(line.astype(ldtype[num]))
+                    out[name].append(line[num].astype(ldtype[num]))
 
     # Cast all lists as numpy arrays, if possible
     for k in out.keys():
         try:
             out[k] = np.array(out[k], dtype=type(out[k][0]))
-        except TypeError:
+        except (IndexError, TypeError):
             # Leave as a list if array casting doesn't work.  This was an
             # issue before, but may have been an old numpy bug that is fixed.
             pass
-- 
2.43.0


From 8e3dd3e1f8f3db5dd2808c5108358bc48a06dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 41/76] fix: default reference latitude when none is supplied

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 080ed30..be1729e 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -181,7 +181,7 @@ class OCBoundary(object):
         self.boundary_lat = 74.0 if boundary_lat is None else boundary_lat
 
         # Ensure that the boundary is in the correct hemisphere
-        if np.sign(boundary_lat) != np.sign(hemisphere):
+        if np.sign(self.boundary_lat) != np.sign(hemisphere):
             self.boundary_lat *= -1.0
 
         # If possible, load the data.  Any boundary correction is applied here.
-- 
2.43.0


From 8dcc5b580fca2998b3c2098151521c7e10f186f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 42/76] fix: stored boundary longitudes belong to the stored
 latitudes

---
 ocbpy/_boundary.py | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index be1729e..ff8e65f 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -855,6 +855,9 @@ class OCBoundary(object):
                     self.aacgm_boundary_lon[i] = np.asarray(
                         aacgmv2.convert_mlt(aacgm_mlt, self.dtime[i],
                                             m2a=True))
+                elif hasattr(self, 'aacgm_boundary_lon'):
+                    # Discard the longitude of the previous boundary location
+                    self.aacgm_boundary_lon[i] = None
             else:
                 logger.warning("".join(["unable to update AACGM boundary ",
                                         "latitude at {:}".format(self.dtime[i]),
@@ -1199,6 +1202,23 @@ class DualBoundary(object):
 
         return eab_blat, eab_bmlt, ocb_blat, ocb_bmlt
 
+    def _get_current_aacgm_boundary_lon(self):
+        """Get the current AACGM boundary longitudes for the EAB and OCB.
+
+        Returns
+        -------
+        blon : list
+            EAB and OCB boundary longitudes in AACGM coordinates at the record
+            index, None of no boundary longitude is set.
+
+        """
+
+        blon = [bound.aacgm_boundary_lon[bound.rec_ind]
+                if hasattr(bound, "aacgm_boundary_lon") else None
+                for bound in [self.eab, self.ocb]]
+
+        return blon
+
     @property
     def rec_ind(self):
         """Record index that identifies the current good EAB/OCB pair."""
@@ -1454,6 +1474,7 @@ class DualBoundary(object):
         # Get the boundary locations in AACGM coordinates
         if not overwrite:
             orig_bound = self._get_current_aacgm_boundary()
+            orig_lon = self._get_current_aacgm_boundary_lon()
             num_none = sum([obound is None for obound in orig_bound])
 
             if len(orig_bound) == num_none:
@@ -1501,9 +1522,15 @@ class DualBoundary(object):
             if orig_bound[2] is not None:
                 self.ocb.aacgm_boundary_lat[self.ocb.rec_ind] = orig_bound[2]
                 self.ocb.aacgm_boundary_mlt[self.ocb.rec_ind] = orig_bound[3]
+            if orig_lon[1] is not None:
+                self.ocb.aacgm_boundary_lon[
+                    self.ocb.rec_ind] = orig_lon[1]
             if orig_bound[0] is not None:
                 self.eab.aacgm_boundary_lat[self.eab.rec_ind] = orig_bound[0]
                 self.eab.aacgm_boundary_mlt[self.eab.rec_ind] = orig_bound[1]
+            if orig_lon[0] is not None:
+                self.eab.aacgm_boundary_lon[
+                    self.eab.rec_ind] = orig_lon[0]
 
         if out_shape == ():
             return bound_lat[0], bound_mlt[0], ocb_lat[0], r_corr[0]
@@ -1637,6 +1664,7 @@ class DualBoundary(object):
             # Get the boundary locations in AACGM coordinates
             if not overwrite:
                 orig_bound = self._get_current_aacgm_boundary()
+                orig_lon = self._get_current_aacgm_boundary_lon()
                 num_none = sum([obound is None for obound in orig_bound])
 
                 if len(orig_bound) == num_none:
@@ -1679,11 +1707,17 @@ class DualBoundary(object):
                         self.ocb.rec_ind] = orig_bound[2]
                     self.ocb.aacgm_boundary_mlt[
                         self.ocb.rec_ind] = orig_bound[3]
+                if orig_lon[1] is not None:
+                    self.ocb.aacgm_boundary_lon[
+                        self.ocb.rec_ind] = orig_lon[1]
                 if orig_bound[0] is not None:
                     self.eab.aacgm_boundary_lat[
                         self.eab.rec_ind] = orig_bound[0]
                     self.eab.aacgm_boundary_mlt[
                         self.eab.rec_ind] = orig_bound[1]
+                if orig_lon[0] is not None:
+                    self.eab.aacgm_boundary_lon[
+                        self.eab.rec_ind] = orig_lon[0]
 
             # If needed, convert from magnetic to geographic coordinates
             if coords.lower().find('mag') < 0:
@@ -1816,6 +1850,7 @@ class DualBoundary(object):
         # Get the boundary locations in AACGM coordinates
         if not overwrite:
             orig_bound = self._get_current_aacgm_boundary()
+            orig_lon = self._get_current_aacgm_boundary_lon()
             num_none = sum([obound is None for obound in orig_bound])
 
             if len(orig_bound) == num_none:
@@ -1841,9 +1876,15 @@ class DualBoundary(object):
             if orig_bound[2] is not None:
                 self.ocb.aacgm_boundary_lat[self.ocb.rec_ind] = orig_bound[2]
                 self.ocb.aacgm_boundary_mlt[self.ocb.rec_ind] = orig_bound[3]
+            if orig_lon[1] is not None:
+                self.ocb.aacgm_boundary_lon[
+                    self.ocb.rec_ind] = orig_lon[1]
             if orig_bound[0] is not None:
                 self.eab.aacgm_boundary_lat[self.eab.rec_ind] = orig_bound[0]
                 self.eab.aacgm_boundary_mlt[self.eab.rec_ind] = orig_bound[1]
+            if orig_lon[0] is not None:
+                self.eab.aacgm_boundary_lon[
+                    self.eab.rec_ind] = orig_lon[0]
 
         if isfloat:
             return scaled_r[0], unscaled_r[0]
-- 
2.43.0


From 75c643912b563db8a3019f0bb264d697e85813a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 43/76] fix: documented instrument names for equatorward
 boundaries

---
 ocbpy/_boundary.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index ff8e65f..9600138 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -976,11 +976,13 @@ class EABoundary(OCBoundary):
 
         """
 
-        if input_instrument in ["", "default", "image", "dmsp-ssj", "ampere"]:
-            self.rfunc = ocbcor.circular
-        elif not hasattr(input_instrument, "lower"):
+        if not hasattr(input_instrument, "lower"):
             # Allow an empty class object to be initialised
             self.rfunc = None
+        elif input_instrument.lower() in ["", "default", "image", "dmsp-ssj",
+                                          "ampere", "amp", "si12", "si13",
+                                          "wic"]:
+            self.rfunc = ocbcor.circular
         else:
             # Only raise an error if the input instrument is a string
             raise ValueError("unknown instrument")
-- 
2.43.0


From 97617738ba0823028f9740389234d8d59dddb2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 44/76] fix: boundaries keep their own copies of the correction
 function inputs

---
 ocbpy/_boundary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 9600138..4127902 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -20,6 +20,7 @@ References
 
 """
 
+import copy
 import numpy as np
 import types
 
@@ -167,8 +168,8 @@ class OCBoundary(object):
         self.r_cent = None
         self.r = None
         self.fom = None
-        self.rfunc = rfunc
-        self.rfunc_kwargs = rfunc_kwargs
+        self.rfunc = copy.copy(rfunc)
+        self.rfunc_kwargs = copy.deepcopy(rfunc_kwargs)
         self.min_fom = -np.inf
         self.max_fom = np.inf
         self._stime = stime
-- 
2.43.0


From 56da129d914a3bbe0c78960e40b1761bc64a47ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 45/76] fix: satellite track for every direction of the track

---
 ocbpy/cycle_boundary.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index b9fd4f4..e3cc269 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -285,21 +285,17 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
     lat = np.asarray(lat)
     mlt = np.asarray(mlt)
 
-    # Get the equation of the line defining the upper and lower bounds
-    slope = (y1 - y2) / (x1 - x2)
-    high_int = y1 + del_y - slope * (x1 + del_x)
-    low_int = y1 - del_y - slope * (x1 - del_x)
+    # Get the size of the offset from the line that connects the boundaries at
+    # the parallel upper and lower bounds. This is valid for any track direction
+    max_off = abs(del_y * (x1 - x2) - del_x * (y1 - y2))
 
     # Determine the Cartesian coordinates of the input point
     rad_in = ocb_time.hr2rad(mlt - 6.0)
     x_in = (90.0 - hemisphere * lat) * np.cos(rad_in)
     y_in = (90.0 - hemisphere * lat) * np.sin(rad_in)
 
-    # Calculate the upper and lower limits for each of the x-inputs
-    y_low = slope * x_in + low_int
-    y_high = slope * x_in + high_int
-
-    good = (y_in >= y_low) & (y_in <= y_high)
+    # Determine which locations lie between the upper and lower bounds
+    good = abs((y_in - y1) * (x1 - x2) - (x_in - x1) * (y1 - y2)) <= max_off
 
     # Ensure the latitude is not too low
     if np.any(good):
-- 
2.43.0


From 7acb3cfe0fc7f19dc358471f0cca570ac65d206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 46/76] fix: satellite track for each location in its own
 hemisphere and any shape

---
 ocbpy/cycle_boundary.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index e3cc269..105a424 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -297,25 +297,13 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
     # Determine which locations lie between the upper and lower bounds
     good = abs((y_in - y1) * (x1 - x2) - (x_in - x1) * (y1 - y2)) <= max_off
 
-    # Ensure the latitude is not too low
-    if np.any(good):
-        r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
-        r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
-
-        # Find which boundary is closest to the good points
-        ione = np.where(good & (r1 <= r2))
-        itwo = np.where(good & (r2 < r1))
-
-        # Evaluate the closest lower boundary limit
-        if len(lat[ione]) > 0:
-            lat_bound = 90.0 - np.sqrt(x1**2 + y1**2) - past_bound
-            ipast = np.where(abs(lat[ione]) < lat_bound)
-            good[ione[0][ipast]] = False
-
-        if len(lat[itwo]) > 0:
-            lat_bound = 90.0 - np.sqrt(x2**2 + y2**2) - past_bound
-            ipast = np.where(abs(lat[itwo]) < lat_bound)
-            good[itwo[0][ipast]] = False
+    # Ensure the latitude is not too low, using the limit set by the closest
+    # boundary to each location
+    r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
+    r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
+    lat_bound = 90.0 - past_bound - np.where(
+        r1 <= r2, np.sqrt(x1**2 + y1**2), np.sqrt(x2**2 + y2**2))
+    good = good & (hemisphere * lat >= lat_bound)
 
     # Return the boolean mask
     return good
-- 
2.43.0


From 464211fa50d3ebf6172bdc0fab710b852c7060f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 47/76] fix: both members are out of range when the dual record
 index is

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 4127902..2755f9a 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1236,7 +1236,7 @@ class DualBoundary(object):
             self.ocb.rec_ind = rec_ind
             self.eab.rec_ind = rec_ind
         elif rec_ind >= self.records:
-            del_ind = self.records - rec_ind
+            del_ind = rec_ind - self.records
             self.ocb.rec_ind = self.ocb.records + del_ind
             self.eab.rec_ind = self.eab.records + del_ind
         else:
-- 
2.43.0


From 5106ba7e81bfb622b6a6490c5ddee9d3046e9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 48/76] fix: cycle dual boundaries without any pairs past the
 end

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 2755f9a..be70d2d 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1351,7 +1351,7 @@ class DualBoundary(object):
     def get_next_good_ind(self):
         """Cycle the boundary attributes to the next good paired index."""
 
-        if self.records > 0 and self.rec_ind < self.records:
+        if self.rec_ind < self.records:
             # Cycle to next boundary
             self.rec_ind += 1
 
-- 
2.43.0


From 59667f634141cb633b3a4e32563bd8aba0432b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 49/76] fix: other hemisphere locations in dual boundary
 coordinate arrays are undefined

---
 ocbpy/_boundary.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index be70d2d..97fba84 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1489,9 +1489,12 @@ class DualBoundary(object):
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
         # Normalize each of the points using the correct scaling factor
+        good_lat = np.isfinite(ocb_lat)
         imid = np.where((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
-                        & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))[0]
-        iout = np.where(abs(aacgm_lat) < abs(eab_aacgm_boundary))[0]
+                        & (abs(aacgm_lat) >= abs(eab_aacgm_boundary))
+                        & good_lat)[0]
+        iout = np.where((abs(aacgm_lat) < abs(eab_aacgm_boundary))
+                        & good_lat)[0]
 
         # Test to ensure that all points fall into a region, allowing for the
         # floating point rounding of locations that are on the boundary
-- 
2.43.0


From b5fe79b1ffeeec4195ba45a9c593b845682cf905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 50/76] fix: adjust vectors with integer vertical components

---
 ocbpy/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 49abc03..86bb03f 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -686,7 +686,7 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         if len(vect_z.shape) == 0:
             vz = vect_z
         else:
-            vz = vect_z[norm_mask]
+            vz = vect_z[norm_mask].astype(float)
             nan_mask = np.isnan(vmag) | (
                 np.isnan(dest_naz_angle) if len(dest_naz_angle.shape) == 0
                 else np.isnan(dest_naz_angle[norm_mask]))
-- 
2.43.0


From b42cabaf6d22429ba9699470d3b829e80fa3cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 51/76] fix: pole quadrants for integer local times

---
 ocbpy/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 86bb03f..aeb0cb2 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -173,7 +173,7 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
 
     """
     # Determine where the destination pole is relative to the data vector
-    del_lt = np.asarray(pole_lt) - np.asarray(data_lt)
+    del_lt = np.asarray(pole_lt, dtype=float) - np.asarray(data_lt, dtype=float)
 
     # Initalize the output
     pole_quad = np.zeros(shape=np.asarray(del_lt).shape)
-- 
2.43.0


From 7d943955cf15fd8f1a18f42c67dbbd33ce2faa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 52/76] fix: scalar heights for pysat data with additional
 dimensions

The scalar default height was indexed as an array.
---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 7b62bd9..aeb4a25 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -388,6 +388,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         ocb_coords = [pysat_inst.index.name]
 
+    # Expand a single height, if this has not already been done
+    if len(height.shape) == 0:
+        height = np.full(shape=lat.shape, fill_value=height)
+
     # See if the data has more dimensions than the OCB coordinates
     if len(dat_coords) > len(ocb_coords):
         combo_shape = list(lat.shape)
-- 
2.43.0


From 15fe3bb92296790c1521bf236d3fbf9e44af7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 53/76] fix: pole angle and quadrant for scalar local times and
 arrays of latitudes or angles

A single local time difference was combined with arrays as if all of the
input was scalar.
---
 ocbpy/vectors.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index aeb0cb2..634d7b8 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -80,13 +80,18 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
     del_long = ocb_time.hr2rad(np.asarray(pole_lt) - np.asarray(data_lt),
                                max_range=np.pi)
 
-    # Initalize the output
-    pole_angle = np.full(shape=del_long.shape, fill_value=np.nan)
-
     # Ensure the latitudes are array-like
     data_lat = np.asarray(data_lat)
     pole_lat = np.asarray(pole_lat)
 
+    # Expand a single local time difference to the shape of the latitudes
+    if len(del_long.shape) == 0:
+        del_long = np.full(shape=max([data_lat.shape, pole_lat.shape]),
+                           fill_value=del_long)
+
+    # Initalize the output
+    pole_angle = np.full(shape=del_long.shape, fill_value=np.nan)
+
     # Assign the extreme values
     if len(del_long.shape) == 0:
         if del_long in [-np.pi, 0.0, np.pi]:
@@ -176,7 +181,8 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
     del_lt = np.asarray(pole_lt, dtype=float) - np.asarray(data_lt, dtype=float)
 
     # Initalize the output
-    pole_quad = np.zeros(shape=np.asarray(del_lt).shape)
+    pole_quad = np.zeros(shape=max([del_lt.shape,
+                                    np.asarray(pole_angle).shape]))
 
     # Determine which differences need to be
     neg_mask = np.less(del_lt, 0.0, where=~np.isnan(del_lt)) & ~np.isnan(del_lt)
-- 
2.43.0


From 15df52989a32bf496d4ea4bf0a3d876d83eef9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 54/76] fix: representation keeps the complete reference
 latitude

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 97fba84..379d5c3 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -238,8 +238,8 @@ class OCBoundary(object):
         out = "".join([class_name, "(filename=", repr(self.filename),
                        ", instrument=", repr(self.instrument),
                        ", hemisphere={:d}, ".format(int(self.hemisphere)),
-                       "boundary_lat={:f}, stime=".format(self.boundary_lat),
-                       repr(stime), ", etime=", repr(etime), ", rfunc=",
+                       "boundary_lat=", repr(float(self.boundary_lat)),
+                       ", stime=", repr(stime), ", etime=", repr(etime), ", rfunc=",
                        repr_rfunc, ", rfunc_kwargs=", repr_rfunc_kwargs, ")"])
         return out
 
-- 
2.43.0


From 0d9a785cf496451af27a255800c9cb298ca26bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 55/76] fix: evaluatable representation of vectors shows every
 value completely

---
 ocbpy/ocb_scaling.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 80e1856..261d0f8 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -18,6 +18,7 @@ References
 
 import aacgmv2
 import numpy as np
+import sys
 
 import ocbpy
 from ocbpy import ocb_time
@@ -159,28 +160,44 @@ class VectorData(object):
             repr_func = ".".join([self.scale_func.__module__,
                                   self.scale_func.__name__])
 
+        # Format the numpy representations, showing each value completely
+        arr_attrs = ["dat_ind", "ocb_ind", "lat", "lt", "height", "ocb_lat",
+                     "ocb_mlt", "r_corr", "vect_n", "vect_e", "vect_z",
+                     "vect_mag"]
+        with np.printoptions(threshold=sys.maxsize, floatmode="unique"):
+            arr = {attr: repr(getattr(self, attr)).replace(
+                "array(", "numpy.array(").replace("dtype=", "dtype=numpy.")
+                for attr in arr_attrs}
+
+            # The location and vector of a single datum may have been converted
+            # at each of the boundary times
+            if self.dat_ind.shape == () and self.lat.shape != ():
+                arr["dat_ind"] = "numpy.full({:}, {:})".format(
+                    self.lat.shape, self.dat_ind)
+
         # Format the base output
-        out = "".join(["ocbpy.ocb_scaling.VectorData(", repr(self.dat_ind),
-                       ", ", repr(self.ocb_ind), ", ", repr(self.lat),
-                       ", ", repr(self.lt), ", height=", repr(self.height),
+        out = "".join(["ocbpy.ocb_scaling.VectorData(", arr["dat_ind"],
+                       ", ", arr["ocb_ind"], ", ", arr["lat"],
+                       ", ", arr["lt"], ", height=", arr["height"],
                        ", loc_coord=", repr(self.loc_coord), ", ocb_lat=",
-                       repr(self.ocb_lat), ", ocb_mlt=", repr(self.ocb_mlt),
-                       ", r_corr=", repr(self.r_corr), ", vect_n=",
-                       repr(self.vect_n), ", vect_e=", repr(self.vect_e),
-                       ", vect_z=", repr(self.vect_z), ", vect_mag=",
-                       repr(self.vect_mag), ", vect_coord=",
+                       arr["ocb_lat"], ", ocb_mlt=", arr["ocb_mlt"],
+                       ", r_corr=", arr["r_corr"], ", vect_n=",
+                       arr["vect_n"], ", vect_e=", arr["vect_e"],
+                       ", vect_z=", arr["vect_z"], ", vect_mag=",
+                       arr["vect_mag"], ", vect_coord=",
                        repr(self.vect_coord), ", dat_name=",
                        repr(self.dat_name), ", dat_units=",
                        repr(self.dat_units), ", scale_func=", repr_func, ")"])
 
-        # Reformat the numpy representations
-        out = out.replace('array', 'numpy.array')
-
         return out
 
     def __str__(self):
         """Provide user readable representation of the VectorData object."""
 
+        def ival(val, ind):
+            """Get the value at an index, scalars are shared by all indices."""
+            return val if np.shape(val) == () else val[ind]
+
         out = "".join([
             "Vector data:",
             "" if self.dat_name is None else " {:s}".format(self.dat_name),
-- 
2.43.0


From ab0c77736afdf91bc361901982b39e002b058026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 56/76] fix: printed summary of vectors for every mix of scalar
 and array input

---
 ocbpy/ocb_scaling.py | 61 +++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 261d0f8..0c7e236 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -222,29 +222,26 @@ class VectorData(object):
             if self.dat_ind.shape == self.ocb_ind.shape or len(
                     self.ocb_ind.shape) == 0:
                 for i, dind in enumerate(self.dat_ind):
-                    if len(self.ocb_lat.shape) == 0 and np.isnan(self.ocb_lat):
-                        ocb_line = "      OCB: [nan, nan, N/A, {:d}]".format(
-                            self.ocb_ind)
-                    else:
-                        ocb_line = "".join([
-                            "      OCB: [{:.3f}, ".format(self.ocb_lat[i]),
-                            "{:.3f}, ".format(self.ocb_mlt[i]),
-                            "N/A, {:d}]".format(
-                                self.ocb_ind if len(self.ocb_ind.shape) == 0
-                                else self.ocb_ind[i])])
                     out = '\n'.join([
                         out, "{:s}: [{:.3f}, {:.3f}, {:.1f}, {:d}]".format(
-                            self.loc_coord.rjust(9), self.lat[i], self.lt[i],
-                            self.height[i], dind), ocb_line])
+                            self.loc_coord.rjust(9), ival(self.lat, i),
+                            ival(self.lt, i), ival(self.height, i), dind),
+                        "      OCB: [{:.3f}, {:.3f}, N/A, {:d}]".format(
+                            ival(self.ocb_lat, i), ival(self.ocb_mlt, i),
+                            ival(self.ocb_ind, i))])
             else:
-                out = '\n'.join([
-                    out, "{:s}: [{:.3f}, {:.3f}, {:.1f}, {:d}]".format(
-                        self.loc_coord.rjust(9), self.lat, self.lt,
-                        self.height, self.dat_ind)])
                 for i, oind in enumerate(self.ocb_ind):
+                    # A location that is shared by all times is shown once
+                    if i == 0 or self.lat.shape != ():
+                        out = '\n'.join([
+                            out, "{:s}: [{:.3f}, {:.3f}, {:.1f}, {:d}]".format(
+                                self.loc_coord.rjust(9), ival(self.lat, i),
+                                ival(self.lt, i), ival(self.height, i),
+                                self.dat_ind)])
                     out = '\n'.join([
                         out, "      OCB: [{:.3f}, {:.3f}, N/A, {:d}]\n".format(
-                            self.ocb_lat[i], self.ocb_mlt[i], oind)])
+                            ival(self.ocb_lat, i), ival(self.ocb_mlt, i),
+                            oind)])
 
         out = "\n".join([out, "-------------------------------------------"])
         if self.vect_mag.shape == () and self.ocb_mag.shape == ():
@@ -259,25 +256,19 @@ class VectorData(object):
         else:
             out = '\n'.join([out, "   Value: Mag. [N, E, Z] Index"])
             for i, mag in enumerate(self.ocb_mag):
-                if self.vect_mag.shape == () and i == 0:
-                    vec_line = ''.join([
-                        self.vect_coord, ": {:.3g}".format(self.vect_mag),
-                        " [{:.3g}, {:.3g}, ".format(self.vect_n, self.vect_e),
-                        "{:.3g}] {:d}".format(self.vect_z, self.dat_ind)])
-                elif self.vect_mag.shape != ():
-                    vec_line = ''.join([
-                        self.vect_coord, ": {:.3g} [".format(self.vect_mag[i]),
-                        "{:.3g}, {:.3g}".format(self.vect_n[i], self.vect_e[i]),
-                        ", {:.3g}] {:d}".format(self.vect_z[i],
-                                                self.dat_ind[i])])
+                # A vector that is shared by all times is shown once
+                if i == 0 or self.dat_ind.shape != () or self.vect_n.shape != ():
+                    out = '\n'.join([
+                        out, "{:s}: {:.3g} [{:.3g}, {:.3g}, {:.3g}] {:d}".format(
+                            self.vect_coord, ival(self.vect_mag, i),
+                            ival(self.vect_n, i), ival(self.vect_e, i),
+                            ival(self.vect_z, i), ival(self.dat_ind, i))])
                 if not np.isnan(mag):
-                    vec_line = "".join([
-                        vec_line, "\n     OCB: {:.3g} [".format(mag),
-                        "{:.3g}, {:.3g}, ".format(self.ocb_n[i], self.ocb_e[i]),
-                        "{:.3g}] {:d}".format(
-                            self.ocb_z[i], self.ocb_ind
-                            if self.ocb_ind.shape == () else self.ocb_ind[i])])
-                out = '\n'.join([out, vec_line])
+                    out = '\n'.join([
+                        out, "     OCB: {:.3g} [{:.3g}, {:.3g}, {:.3g}]".format(
+                            mag, ival(self.ocb_n, i), ival(self.ocb_e, i),
+                            ival(self.ocb_z, i)) + " {:d}".format(
+                                ival(self.ocb_ind, i))])
 
         # Print the scaling information
         out = "\n".join([out, "-------------------------------------------",
-- 
2.43.0


From fa875aeac7108399346e9820c57c753d258ee2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 57/76] fix: column names on a commented header line when the
 comment mark is given

---
 ocbpy/instruments/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 554ea1c..0afcb2c 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -154,6 +154,9 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     keyheader = in_header if in_header is not None else header[-1]
 
     if 'comments' in gft_kwargs.keys() and gft_kwargs['comments'] is not None:
+        if keyheader.startswith(gft_kwargs['comments']):
+            keyheader = keyheader[len(gft_kwargs['comments']):]
+
         keyheader = keyheader.split(gft_kwargs['comments'])[0]
 
     keyheader = keyheader.replace("#", "").strip()
-- 
2.43.0


From cd83935a24df4f263a1725a25c32d90659dc4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 58/76] fix: ASCII tables whose columns use every name reserved
 for the time

---
 ocbpy/instruments/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 0afcb2c..d23f507 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -177,7 +177,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     dt_keys = ['datetime', 'DATETIME', 'DT', 'dt']
     if len(datetime_cols) > 0 and datetime_fmt is not None:
         idt = 0
-        while dt_keys[idt] in out.keys():
+        while idt < len(dt_keys) and dt_keys[idt] in out.keys():
             idt += 1
 
         if idt < len(dt_keys):
-- 
2.43.0


From bb11da61debef0da648b306bef5c42a514b99b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 59/76] fix: time columns of ASCII tables that are also
 requested as integers

---
 ocbpy/instruments/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index d23f507..3b71620 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -218,7 +218,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
                 if idt < len(dt_keys) and name == dt_keys[idt]:
                     # Build the convert_time input
                     for icol, dcol in enumerate(datetime_cols):
-                        line_val = line[dcol].astype(ldtype[dcol])
+                        line_val = str(line[dcol])
 
                         if dfmt_parts[icol].find("%") == 0:
                             if dfmt_parts[icol][1] in time_formats:
-- 
2.43.0


From 77c0d38a9dee8fc5d9b25ebe1d88c2e8c5301114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 60/76] fix: times of ASCII tables with the time of day before
 the date

---
 ocbpy/instruments/general.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 3b71620..83ec41e 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -122,6 +122,14 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     dfmt_parts = list() if datetime_fmt is None else datetime_fmt.split(" ")
     time_formats = ["H", "I", "p", "M", "S", "f", "z", "Z"]
 
+    # The date is passed to the conversion before the time of day, so order
+    # the format in the same way
+    conv_fmt = datetime_fmt
+    if datetime_fmt is not None:
+        conv_fmt = " ".join(sorted(
+            dfmt_parts, key=lambda part: part.upper() == "SOD" or (
+                part.find("%") == 0 and part[1] in time_formats)))
+
     # Make sure the max_str_length is long enough to read datetime and that
     # the time data will be cast in the correct format
     if datetime_fmt is not None:
@@ -211,7 +219,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
             # Each line may have times that need to be combined and converted
             convert_time_input = {"year": None, "soy": None, "yyddd": None,
                                   "date": None, "tod": None,
-                                  "datetime_fmt": datetime_fmt}
+                                  "datetime_fmt": conv_fmt}
 
             # Cycle through each of the columns in this data row
             for num, name in enumerate(keylist):
-- 
2.43.0


From 8e90aea58dde1b161fd893ab3e0b07c77cc84fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 61/76] fix: DMSP archives with folders or members that are not
 boundary files

---
 ocbpy/boundaries/dmsp_ssj_files.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index e2ab878..05ec17b 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -212,17 +212,19 @@ def evaluate_dmsp_boundary_file(fname, stime, etime, sat_nums):
     if etime is None:
         etime = dt.datetime.utcnow()  # A time beyond data uploads
 
-    # Get the file satelite ID
-    sat_id = int(fname.split('dmsp-f')[-1].split('_ssj')[0])
+    # Get the file satelite ID and time, other names are not boundary files
+    try:
+        name_sec = os.path.split(fname)[-1].split('dmsp-f')[-1].split('_')
+        sat_id = int(name_sec[0])
+        ftime = dt.datetime.strptime(name_sec[3], '%Y%m%d')
+    except (IndexError, ValueError):
+        return good_file
 
     if sat_id in sat_nums:
         # Test the file time
         if stime is None and etime is None:
             good_file = True
         else:
-            # Get the file time
-            ftime = dt.datetime.strptime(fname.split('_')[3], '%Y%m%d')
-
             if (stime is None and ftime < etime) or (
                     etime is None and ftime >= stime) or (
                         ftime >= stime and ftime < etime):
-- 
2.43.0


From 58199d948a0de43b76c695c97b416e60376adecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 62/76] fix: date range in the names of formatted DMSP files

---
 ocbpy/boundaries/dmsp_ssj_files.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 05ec17b..6338864 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -326,12 +326,12 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
     outfile_prefix = os.path.join(
         os.path.split(outfile_prefix)[0],
         os.path.split(outfile_prefix)[1].split('-f')[0])
-    filename_sec = os.path.split(
-        csv_files[0])[-1].split('dmsp-f')[-1].split('_')
-    sdate = filename_sec[3]
+    file_dates = [os.path.split(infile)[-1].split('dmsp-f')[-1].split('_')[3]
+                  for infile in csv_files]
+    sdate = min(file_dates)
+    edate = max(file_dates)
     filename_sec = os.path.split(
         csv_files[-1])[-1].split('dmsp-f')[-1].split('_')
-    edate = filename_sec[3]
 
     bound_files = {hh: {bb: "".join([outfile_prefix, "-", filename_sec[1], "_",
                                      hemi_suffix[hh], "_", sdate, "_", edate,
-- 
2.43.0


From 5c84de59baf589a6f157a979cc645531774dc52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 63/76] fix: labelled-array pysat data with locations of any
 mix of dimensions

---
 ocbpy/instruments/pysat_instruments.py | 235 ++++++++++++-------------
 1 file changed, 110 insertions(+), 125 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index aeb4a25..f682c18 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -21,6 +21,7 @@ import os
 
 try:
     import pysat
+    import xarray as xr
 except ImportError as ierr:
     err = ''.join(['unable to load the pysat modules; pysat is available at:',
                    '\nhttps://github.com/pysat/pysat'])
@@ -294,12 +295,15 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                         vector_attrs[oattr].append(vector_names[eattr][vinit])
                     vdim += 1
 
-    # Determine how many of the pysat names are variables
-    pysat_var_names = len(pysat_names)
-    if not pysat_inst.pandas_format:
-        for pyname in pysat_names:
-            if pyname in pysat_inst.data.coords:
-                pysat_var_names -= 1
+            # The vector data may not need more dimensions than those of one
+            # of its components
+            if not pysat_inst.pandas_format:
+                vdims = [set(pysat_inst.data[vector_names[eattr][vinit]].dims)
+                         for vinit in vector_names[eattr].keys()
+                         if vinit in vector_reqs]
+
+                if len(vdims) > 0 and set.union(*vdims) not in vdims:
+                    raise ValueError('mismatched dimensions for VectorData')
 
     # Append the remaining OCB output names
     for eattr in evar_names:
@@ -314,101 +318,68 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         height = np.asarray(height)
 
-    # Ensure all data is from one hemisphere and is finite
-    if pysat_inst.pandas_format:
-        finite_mask = ((np.sign(lat) == hemisphere)
-                       & np.isfinite(pysat_inst[:, pysat_names].max(axis=1)))
-        dat_coords = [pysat_inst.index.name]
-        combo_shape = [pysat_inst.index.shape[0]]
-    else:
-        nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
-                                         == hemisphere)
-        finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
-            'variable'))
-        dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
-    dat_ind = np.where(finite_mask)
-
     # Test the OCB data
     if ocb.records == 0:
         ocbpy.logger.error("no data in Boundary file(s)")
         return
 
     # Ensure the LT, Lat, and Height data are the same shape
-    if lat.shape != lt.shape or lat.shape[0] != pysat_inst.index.shape[
-            0] or (height.shape != lat.shape and len(height.shape) > 0):
-        if pysat_inst.pandas_format:
+    if pysat_inst.pandas_format:
+        ocb_coords = [pysat_inst.index.name]
+
+        if lat.shape != lt.shape or lat.shape[0] != pysat_inst.index.shape[
+                0] or (height.shape != lat.shape and len(height.shape) > 0):
             raise ValueError('unexpected height shape or bad lat/lt data')
 
-        # Use local time to set the initial coordinates, since it will have
-        # UT dependence and latitude may not
-        ocb_coords = [lt_coord for lt_coord
-                      in pysat_inst[mlt_name].coords.keys()]
-        combo_shape = list(lt.shape)
-
-        # Expand the coordinates if the lat coordinates are not the
-        # same as the LT coordinates or height coordinatess
-        for lat_coord in pysat_inst[mlat_name].coords:
-            if lat_coord not in pysat_inst[mlt_name].coords:
-                combo_shape.append(pysat_inst[lat_coord].shape[0])
-                ocb_coords.append(lat_coord)
-
-        # Reshape the latitude and local time data if necessary
-        if lat.shape != tuple(combo_shape) or lt.shape != tuple(combo_shape):
-            out_lat, out_lt = np.meshgrid(lat, lt)
-            lat = out_lat.reshape(combo_shape)
-            lt = out_lt.reshape(combo_shape)
-
-        # Determine if reshaping for altitude is necessary
-        if len(height.shape) == 0:
-            height = np.full(shape=lat.shape, fill_value=height)
-        elif height.shape != lat.shape:
-            if height_name in pysat_inst.variables:
-                new_coords = False
-                for alt_coord in pysat_inst[height_name].coords:
-                    if alt_coord not in ocb_coords:
-                        combo_shape.append(pysat_inst[alt_coord].shape[0])
-                        ocb_coords.append(alt_coord)
-                        new_coords = True
-
-                # Reshape the data
-                if new_coords:
-                    out_lat, out_height = np.meshgrid(lat, height)
-                    out_lt, _ = np.meshgrid(lt, height)
-                    lat = out_lat.reshape(combo_shape)
-                    height = out_height.reshape(combo_shape)
-                    lt = out_lt.reshape(combo_shape)
-                else:
-                    height = height.reshape(combo_shape)
-            elif len(height.shape) == len(lat.shape):
-                # Try and reshape the height
-                height = height.reshape(combo_shape)
-            else:
-                # Can't reshape the height
-                raise ValueError('unexpected height shape')
+        # Ensure all data is from one hemisphere and is finite
+        finite_mask = ((np.sign(lat) == hemisphere)
+                       & np.isfinite(pysat_inst[:, pysat_names].max(axis=1)))
     else:
-        ocb_coords = [pysat_inst.index.name]
+        # Get the data with all of the dimensions needed for the output. Use
+        # the time first and the local time to set the initial coordinates,
+        # since it will have UT dependence and latitude may not
+        dim_data = [pysat_inst.data[pname] for pname in [
+            pysat_inst.index.name, mlt_name, mlat_name] + pysat_names]
+
+        if height_name in pysat_inst.variables:
+            height = pysat_inst.data[height_name]
+            dim_data.append(height)
+
+        ocb_coords = list()
+        for dat in dim_data:
+            ocb_coords.extend([dcoord for dcoord in dat.dims
+                               if dcoord not in ocb_coords])
+
+        combo_shape = [pysat_inst.data.sizes[dcoord] for dcoord in ocb_coords]
+
+        # Expand the location data to all of the output dimensions
+        lat = expand_dims(pysat_inst.data[mlat_name], ocb_coords, combo_shape)
+        lt = expand_dims(pysat_inst.data[mlt_name], ocb_coords, combo_shape)
+
+        if len(height.shape) > 0:
+            if height_name not in pysat_inst.variables:
+                # Use the dimensions of the data with the same shape
+                good_dims = [dat.dims for dat in dim_data
+                             if dat.shape == height.shape]
+
+                if len(good_dims) > 0:
+                    height = xr.DataArray(height, dims=good_dims[0])
+                elif list(height.shape) == combo_shape:
+                    height = xr.DataArray(height, dims=ocb_coords)
+                else:
+                    raise ValueError('unexpected height shape')
+
+            height = expand_dims(height, ocb_coords, combo_shape)
+
+        # Ensure all data is from one hemisphere and is finite
+        finite_mask = np.isfinite(lat) & (np.sign(lat) == hemisphere)
+
+    dat_ind = np.where(finite_mask)
 
     # Expand a single height, if this has not already been done
     if len(height.shape) == 0:
         height = np.full(shape=lat.shape, fill_value=height)
 
-    # See if the data has more dimensions than the OCB coordinates
-    if len(dat_coords) > len(ocb_coords):
-        combo_shape = list(lat.shape)
-        for dcoord in dat_coords:
-            if dcoord not in ocb_coords:
-                ocb_coords.append(dcoord)
-                combo_shape.append(pysat_inst[dcoord].shape[0])
-
-        # Reverse and transpose the arrays
-        combo_shape.reverse()
-        out_lat = np.full(shape=combo_shape, fill_value=lat.transpose())
-        out_lt = np.full(shape=combo_shape, fill_value=lt.transpose())
-        out_height = np.full(shape=combo_shape, fill_value=height.transpose())
-        lat = out_lat.transpose()
-        lt = out_lt.transpose()
-        height = out_height.transpose()
-
     # Initialise the OCB output
     ocb_output = dict()
     for oattr in ocb_names:
@@ -443,23 +414,16 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                 and ocb.rec_ind < ocb.records):
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
-            if len(dat_coords) > 1:
-                iout = tuple(dind[time_ind] for dind in dat_ind)
-                if pysat_var_names > 1:
-                    # If there is more than one variable, need to downselect
-                    time_sel = pysat_inst[pysat_names].to_array().max(
-                        'variable')
-                else:
-                    time_sel = pysat_inst[pysat_names]
-
-                time_mask = np.isfinite(time_sel.where(
-                    finite_mask & (pysat_inst[pysat_inst.index.name]
-                                   == pysat_inst.index[uind][idat])))
-                vind = iout[0]
-            else:
+            if pysat_inst.pandas_format:
                 iout = dat_ind[0][time_ind]
                 vind = iout
                 time_mask = None
+            else:
+                iout = tuple(dind[time_ind] for dind in dat_ind)
+                vind = iout[0]
+                time_mask = np.zeros(shape=lat.shape, dtype=bool)
+                time_mask[iout] = True
+                time_mask = xr.DataArray(time_mask, dims=ocb_coords)
 
             # Get the OCB coordinates
             nout = ocb.normal_coord(lat[iout], lt[iout], coords=loc_coord,
@@ -488,7 +452,6 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                   "height": height[iout]}
                 for eattr in vector_names.keys():
                     vector_init = dict(vector_default)
-                    vshape = list()
                     oattr = "{:s}_{:s}".format(eattr, bname)
                     for ikey in vector_names[eattr].keys():
                         # Not all vector names are DataFrame names
@@ -499,9 +462,6 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                             else:
                                 vector_init[ikey] = reshape_pad_mask_flatten(
                                     pysat_inst[vname], time_mask)
-
-                            if vector_init[ikey].shape not in vshape:
-                                vshape.append(vector_init[ikey].shape)
                         else:
                             vector_init[ikey] = vname
 
@@ -586,6 +546,33 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     return
 
 
+def expand_dims(data, dims, shape):
+    """Expand data to the desired dimensions.
+
+    Parameters
+    ----------
+    data : xr.DataArray
+        Data whose dimensions are all included in `dims`
+    dims : list-like
+        Ordered names of the desired dimensions
+    shape : list-like
+        Size of each of the desired dimensions
+
+    Returns
+    -------
+    np.array
+        Data with the desired order of dimensions and shape
+
+    """
+    # Set the order of the existing dimensions
+    data = data.transpose(*[dim for dim in dims if dim in data.dims])
+
+    # Add the missing dimensions
+    pad_shape = [data.sizes[dim] if dim in data.dims else 1 for dim in dims]
+
+    return np.full(shape=shape, fill_value=data.values.reshape(pad_shape))
+
+
 def reshape_pad_mask_flatten(data, mask):
     """Reshape, pad, mask, and flatten data.
 
@@ -602,28 +589,26 @@ def reshape_pad_mask_flatten(data, mask):
         Flattened array of good data, as specified by the mask
 
     """
-    if np.all(mask.dims == data.dims):
-        if mask.shape == data.shape:
-            flat = data.where(mask, drop=True).values.flatten()
-        else:
+    if mask.dims == data.dims:
+        if mask.shape != data.shape:
             raise ValueError('different shapes for the same dimesions')
+
+        flat = data.values
     else:
-        # Reshape this data variable for existing dims
-        data_dims = [dim for dim in mask.dims if dim in data.dims]
-        flat = data.transpose(*data_dims, ...).values
-
-        # Pad by adding the additional dimensions if needed
-        if len(data_dims) < len(mask.dims):
-            try:
-                flat = np.full(shape=tuple(reversed(list(mask.shape))),
-                               fill_value=flat.transpose()).transpose()
-            except Exception as xerr:
-                # Using Exception instead of AssertionError because the
-                # catch is not consistent
-                raise ValueError(''.join(['vector variables must all have the',
-                                          ' same shape, {:}'.format(xerr)]))
-
-        flat = flat[mask.values].flatten()
+        try:
+            # The data must be available at the first dimension (time)
+            if mask.dims[0] not in data.dims:
+                raise ValueError('missing dimension {:}'.format(mask.dims[0]))
+
+            # Pad by adding the additional dimensions if needed
+            flat = expand_dims(data, mask.dims, mask.shape)
+        except Exception as xerr:
+            # Using Exception instead of AssertionError because the
+            # catch is not consistent
+            raise ValueError(''.join(['vector variables must all have the',
+                                      ' same shape, {:}'.format(xerr)]))
+
+    flat = flat[mask.values].flatten()
 
     return flat
 
-- 
2.43.0


From 6c83b30da745e40d5d3a343a0c9a530426c47aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 64/76] fix: dual boundary coordinates of multi-dimensional
 arrays

---
 ocbpy/_boundary.py | 50 ++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 379d5c3..f12b70d 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1490,20 +1490,17 @@ class DualBoundary(object):
 
         # Normalize each of the points using the correct scaling factor
         good_lat = np.isfinite(ocb_lat)
-        imid = np.where((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
-                        & (abs(aacgm_lat) >= abs(eab_aacgm_boundary))
-                        & good_lat)[0]
-        iout = np.where((abs(aacgm_lat) < abs(eab_aacgm_boundary))
-                        & good_lat)[0]
+        imid = ((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
+                & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)) & good_lat)
+        iout = (abs(aacgm_lat) < abs(eab_aacgm_boundary)) & good_lat
 
         # Test to ensure that all points fall into a region, allowing for the
         # floating point rounding of locations that are on the boundary
-        iocb = np.where((abs(ocb_lat) >= abs(self.ocb.boundary_lat))
-                        | np.isclose(ocb_lat, self.ocb.boundary_lat, rtol=0.0,
-                                     atol=1.0e-8))[0]
-        ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
-                and i not in imid and i not in iout]
-        if len(ibad) > 0:
+        iocb = ((abs(ocb_lat) >= abs(self.ocb.boundary_lat))
+                | np.isclose(ocb_lat, self.ocb.boundary_lat, rtol=0.0,
+                             atol=1.0e-8))
+        ibad = ~(iocb | imid | iout)
+        if ibad.any():
             msg = "not all points fall into a boundary region"
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
                     eab_aacgm_boundary).any():
@@ -1512,13 +1509,13 @@ class DualBoundary(object):
 
             bound_lat[ibad] = np.nan
 
-        if len(imid) > 0:
+        if imid.any():
             bound_lat[imid] = self.ocb.boundary_lat - (
                 ocb_aacgm_boundary[imid] - aacgm_lat[imid]) * (
                     self.ocb.boundary_lat - self.eab.boundary_lat) / (
                         ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid])
 
-        if len(iout) > 0:
+        if iout.any():
             bound_lat[iout] = self.eab.boundary_lat - (
                 eab_aacgm_boundary[iout] - aacgm_lat[iout]) * (
                     self.eab.boundary_lat / eab_aacgm_boundary[iout])
@@ -1641,10 +1638,7 @@ class DualBoundary(object):
 
         # If not already flagged, see if all OCB by location
         if not is_ocb:
-            iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-
-            if len(ocb_lat) == len(iocb):
-                is_ocb = True
+            is_ocb = bool(np.all(abs(ocb_lat) >= abs(self.ocb.boundary_lat)))
 
         # The other regions are undefined without a good record
         if self.rec_ind < 0 or self.rec_ind >= self.records:
@@ -1689,18 +1683,18 @@ class DualBoundary(object):
                 logger.warning(msg)
 
             # Revert each of the points using the correct scaling factor
-            imid = np.where((abs(ocb_lat) < abs(self.ocb.boundary_lat))
-                            & (abs(ocb_lat) >= abs(self.eab.boundary_lat)))[0]
-            iout = np.where(abs(ocb_lat) < abs(self.eab.boundary_lat))[0]
+            imid = ((abs(ocb_lat) < abs(self.ocb.boundary_lat))
+                    & (abs(ocb_lat) >= abs(self.eab.boundary_lat)))
+            iout = abs(ocb_lat) < abs(self.eab.boundary_lat)
 
-            if len(imid) > 0:
+            if imid.any():
                 lat[imid] = ocb_aacgm_boundary[imid] - (
                     self.ocb.boundary_lat - ocb_lat[imid]) * (
                         ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid]) / (
                             self.ocb.boundary_lat - self.eab.boundary_lat)
                 lt[imid] = aacgm_mlt[imid]
 
-            if len(iout) > 0:
+            if iout.any():
                 lat[iout] = eab_aacgm_boundary[iout] - (
                     self.eab.boundary_lat - ocb_lat[iout]) * (
                     eab_aacgm_boundary[iout] / self.eab.boundary_lat)
@@ -1727,7 +1721,7 @@ class DualBoundary(object):
 
             # If needed, convert from magnetic to geographic coordinates
             if coords.lower().find('mag') < 0:
-                imag = list(imid) + list(iout)
+                imag = imid | iout
 
                 # Convert from mlt to longitude
                 lon = aacgmv2.convert_mlt(aacgm_mlt[imag],
@@ -1849,9 +1843,9 @@ class DualBoundary(object):
                 self.ocb_ind[self.rec_ind]] + r_corr)
 
         # Identify points in the other regions
-        imid = np.where((abs(bound_lat) < abs(self.ocb.boundary_lat))
-                        & (abs(bound_lat) >= abs(self.eab.boundary_lat)))[0]
-        iout = np.where(abs(bound_lat) < abs(self.eab.boundary_lat))[0]
+        imid = ((abs(bound_lat) < abs(self.ocb.boundary_lat))
+                & (abs(bound_lat) >= abs(self.eab.boundary_lat)))
+        iout = abs(bound_lat) < abs(self.eab.boundary_lat)
 
         # Get the boundary locations in AACGM coordinates
         if not overwrite:
@@ -1868,12 +1862,12 @@ class DualBoundary(object):
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
         # Calculate the radii in the auroral region
-        if len(imid) > 0:
+        if imid.any():
             scaled_r[imid] = abs(self.ocb.boundary_lat - self.eab.boundary_lat)
             unscaled_r[imid] = abs(ocb_aacgm_boundary[imid]
                                    - eab_aacgm_boundary[imid])
 
-        if len(iout) > 0:
+        if iout.any():
             scaled_r[iout] = abs(self.eab.boundary_lat)
             unscaled_r[iout] = abs(eab_aacgm_boundary[iout])
 
-- 
2.43.0


From 8de026f13434354d14891db9995aed1331cbc9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 65/76] fix: geographic coordinates in multi-dimensional arrays

---
 ocbpy/_boundary.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index f12b70d..1bb09e6 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -612,8 +612,16 @@ class OCBoundary(object):
             # method flag
             if coords.lower() == 'geocentric':
                 method = "|".join([method, coords.upper()])
+
+            # The magnetic conversion is limited to one-dimensional arrays
+            geo_loc = np.broadcast_arrays(lat, lon, height)
             aacgm_lat, _, aacgm_mlt = aacgmv2.get_aacgm_coord_arr(
-                lat, lon, height, self.dtime[self.rec_ind], method)
+                *[gloc.ravel() for gloc in geo_loc], self.dtime[self.rec_ind],
+                method)
+
+            if geo_loc[0].ndim > 1:
+                aacgm_lat = aacgm_lat.reshape(geo_loc[0].shape)
+                aacgm_mlt = aacgm_mlt.reshape(geo_loc[0].shape)
         else:
             aacgm_lat = lat
             aacgm_mlt = lt
@@ -735,18 +743,24 @@ class OCBoundary(object):
 
         # If needed, convert from magnetic to geographic coordinates
         if coords.lower().find('mag') < 0:
-            # Convert from mlt to longitude
-            lon = aacgmv2.convert_mlt(aacgm_mlt, self.dtime[self.rec_ind],
-                                      m2a=True)
+            # Convert from mlt to longitude. The magnetic conversion is limited
+            # to one-dimensional arrays
+            mag_loc = np.broadcast_arrays(aacgm_lat, aacgm_mlt, height)
+            lon = aacgmv2.convert_mlt(mag_loc[1].ravel(),
+                                      self.dtime[self.rec_ind], m2a=True)
 
             # If geocentric coordinates are specified, add this info to the
             # method flag
             if coords.lower() == 'geocentric':
                 method = "|".join([method, coords.upper()])
             method = "|".join([method, "A2G"])
-            lat, lon, _ = aacgmv2.convert_latlon_arr(aacgm_lat, lon, height,
-                                                     self.dtime[self.rec_ind],
-                                                     method)
+            lat, lon, _ = aacgmv2.convert_latlon_arr(
+                mag_loc[0].ravel(), lon, mag_loc[2].ravel(),
+                self.dtime[self.rec_ind], method)
+
+            if mag_loc[0].ndim > 1:
+                lat = lat.reshape(mag_loc[0].shape)
+                lon = lon.reshape(mag_loc[0].shape)
 
             # Convert from longitude to solar local time
             lt = ocb_time.glon2slt(lon, self.dtime[self.rec_ind])
@@ -1455,8 +1469,16 @@ class DualBoundary(object):
             # method flag
             if coords.lower() == 'geocentric':
                 method = "|".join([method, coords.upper()])
+
+            # The magnetic conversion is limited to one-dimensional arrays
+            geo_loc = np.broadcast_arrays(lat, lon, height)
             aacgm_lat, _, aacgm_mlt = aacgmv2.get_aacgm_coord_arr(
-                lat, lon, height, self.dtime[self.rec_ind], method)
+                *[gloc.ravel() for gloc in geo_loc], self.dtime[self.rec_ind],
+                method)
+
+            if geo_loc[0].ndim > 1:
+                aacgm_lat = aacgm_lat.reshape(geo_loc[0].shape)
+                aacgm_mlt = aacgm_mlt.reshape(geo_loc[0].shape)
         else:
             aacgm_lat = np.array(lat)
             aacgm_mlt = np.array(lt)
-- 
2.43.0


From 0c7611ff64cdaebc47b06aba561e7d9353e64975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 66/76] fix: geographic vectors without a geographic location
 are undefined

---
 ocbpy/ocb_scaling.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 0c7e236..1860430 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1130,10 +1130,19 @@ class VectorData(object):
                 vect_quad = vectors.define_vect_quadrants(self.vect_n,
                                                           self.vect_e)
 
-            # Adjust the geographic vector to AACGM coordinates
-            mag_n, mag_e, mag_z = vectors.adjust_vector(
-                geo_lt, geo_lat, self.vect_n, self.vect_e, self.vect_z,
-                vect_quad, mag_pole_slt, mag_pole_glat, pole_angle, pole_quad)
+                # Adjust the geographic vector to AACGM coordinates
+                mag_n, mag_e, mag_z = vectors.adjust_vector(
+                    geo_lt, geo_lat, self.vect_n, self.vect_e, self.vect_z,
+                    vect_quad, mag_pole_slt, mag_pole_glat, pole_angle,
+                    pole_quad)
+            else:
+                # Without a geographic location, the magnetic vector components
+                # are undefined
+                out_shape = np.broadcast_shapes(pole_angle.shape,
+                                                np.shape(self.vect_n))
+                mag_n = np.full(shape=out_shape, fill_value=np.nan)
+                mag_e = np.full(shape=out_shape, fill_value=np.nan)
+                mag_z = np.full(shape=out_shape, fill_value=np.nan)
 
             # Assign the new vector data and coordinate specification
             self.vect_n = np.asarray(mag_n)
-- 
2.43.0


From 259c77ba66bd37f9a9453538d5fdd5bf8f995aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 67/76] fix: dual boundary radii of scalar and array input
 mixes

---
 ocbpy/_boundary.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 1bb09e6..9bd9cc2 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1835,11 +1835,9 @@ class DualBoundary(object):
 
         """
 
-        # Ensure all data is array-like
-        bound_lat = np.asarray(bound_lat)
-        bound_mlt = np.asarray(bound_mlt)
-        aacgm_mlt = np.asarray(aacgm_mlt)
-        r_corr = np.asarray(r_corr)
+        # Ensure all data is array-like and has the same shape
+        bound_lat, bound_mlt, aacgm_mlt, r_corr = np.broadcast_arrays(
+            bound_lat, bound_mlt, aacgm_mlt, r_corr)
 
         isfloat = False
         if bound_lat.shape == ():
@@ -1850,7 +1848,7 @@ class DualBoundary(object):
             isfloat = True
 
         # Initialize the output, start by assuming the data is inside the OCB
-        out_shape = max([bound_lat.shape, bound_mlt.shape, r_corr.shape])
+        out_shape = bound_lat.shape
         scaled_r = np.full(shape=out_shape,
                            fill_value=90.0 - abs(self.ocb.boundary_lat))
 
@@ -1858,11 +1856,7 @@ class DualBoundary(object):
             unscaled_r = np.full(shape=out_shape, fill_value=np.nan)
             return scaled_r, unscaled_r
 
-        if out_shape == r_corr.shape:
-            unscaled_r = self.ocb.r[self.ocb_ind[self.rec_ind]] + r_corr
-        else:
-            unscaled_r = np.full(shape=out_shape, fill_value=self.ocb.r[
-                self.ocb_ind[self.rec_ind]] + r_corr)
+        unscaled_r = self.ocb.r[self.ocb_ind[self.rec_ind]] + r_corr
 
         # Identify points in the other regions
         imid = ((abs(bound_lat) < abs(self.ocb.boundary_lat))
-- 
2.43.0


From 2dfca5d13889ac9df330b76ed2c7a508fcd6abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 68/76] fix: locations converted between geographic coordinate
 systems

---
 ocbpy/ocb_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 1860430..2528752 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -923,6 +923,10 @@ class VectorData(object):
         dtime = None
 
         if coord.lower() != self.loc_coord:
+            # Geographic coordinates convert to and from magnetic coordinates
+            if 'magnetic' not in [coord.lower(), self.loc_coord]:
+                self.update_loc_coords(dtimes, trace_method=trace_method)
+
             # Ensure the data is shaped correctly
             if len(self.lt.shape) == 0 and len(self.lat.shape) == 0:
                 if hasattr(dtimes, 'year'):
-- 
2.43.0


From 399ee1e04f39c868e286e96359f22a62a38a28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 69/76] fix: geographic vector locations in multi-dimensional
 arrays

---
 ocbpy/ocb_scaling.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 2528752..3f0a79c 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -978,9 +978,12 @@ class VectorData(object):
                     # Get the longitude
                     lon = ocb_time.slt2glon(self.lt, dtime)
 
-                    # Convert to magnetic coordinates
+                    # Convert to magnetic coordinates, which is limited to
+                    # one-dimensional arrays
+                    loc = np.broadcast_arrays(self.lat, lon, self.height)
                     new_lat, _, new_lt = aacgmv2.get_aacgm_coord_arr(
-                        self.lat, lon, self.height, dtime, "|".join(methods))
+                        *[val.ravel() for val in loc], dtime,
+                        "|".join(methods))
             else:
                 # Update the method
                 if coord.lower() == "geocentric":
@@ -1003,12 +1006,15 @@ class VectorData(object):
                         new_lt.append(ocb_time.glon2slt(out[1], val))
                         new_lat.append(out[0])
                 else:
-                    # Get the longitude
-                    lon = aacgmv2.convert_mlt(self.lt, dtime, m2a=True)
+                    # Get the longitude, the conversion is limited to
+                    # one-dimensional arrays
+                    loc = np.broadcast_arrays(self.lat, self.lt, self.height)
+                    lon = aacgmv2.convert_mlt(loc[1].ravel(), dtime, m2a=True)
 
                     # Convert latitude and longitude
                     new_lat, new_lon, _ = aacgmv2.convert_latlon_arr(
-                        self.lat, lon, self.height, dtime, "|".join(methods))
+                        loc[0].ravel(), lon, loc[2].ravel(), dtime,
+                        "|".join(methods))
 
                     # Convert to SLT
                     new_lt = ocb_time.glon2slt(new_lon, dtime)
@@ -1106,9 +1112,9 @@ class VectorData(object):
                     mag_pole_glat.append(out[0])
             else:
                 mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon_arr(
-                    np.full(shape=self.height.shape,
-                            fill_value=hemisphere * 90.0), 0.0, self.height,
-                    dtime, method_code='|'.join(methods))
+                    np.full(shape=self.height.size,
+                            fill_value=hemisphere * 90.0), 0.0,
+                    self.height.ravel(), dtime, method_code='|'.join(methods))
                 mag_pole_glat = mag_pole_glat.reshape(self.height.shape)
                 mag_pole_lon = mag_pole_lon.reshape(self.height.shape)
                 mag_pole_slt = ocb_time.glon2slt(mag_pole_lon, dtime)
-- 
2.43.0


From 51b076a90ec5037325792c185d7b5f06d35664b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 70/76] fix: reverting dual boundary arrays without locations
 outside the polar cap

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 9bd9cc2..067db9f 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1742,9 +1742,9 @@ class DualBoundary(object):
                         self.eab.rec_ind] = orig_lon[0]
 
             # If needed, convert from magnetic to geographic coordinates
-            if coords.lower().find('mag') < 0:
-                imag = imid | iout
+            imag = imid | iout
 
+            if coords.lower().find('mag') < 0 and imag.any():
                 # Convert from mlt to longitude
                 lon = aacgmv2.convert_mlt(aacgm_mlt[imag],
                                           self.dtime[self.rec_ind], m2a=True)
-- 
2.43.0


From a84146d66319218950d558a771708a6211146c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 71/76] fix: conversion of geographic vectors with field-line
 tracing ends

---
 ocbpy/ocb_scaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 3f0a79c..7ab99de 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1092,8 +1092,9 @@ class VectorData(object):
             if hasattr(dtimes, 'year'):
                 dtime = dtimes
 
-            # Set the AACGM coordinates of the geographic pole
-            methods = [trace_method]
+            # Set the AACGM coordinates of the geographic pole. Use the AACGMV2
+            # coefficients, as tracing the field line of the pole does not end
+            methods = ["BADIDEA"]
             if self.vect_coord == "geocentric":
                 methods.append(self.vect_coord.upper())
             methods.append("A2G")
-- 
2.43.0


From dd2adc67acc6723036ac3611a510f799059196cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 72/76] fix: magnetic locations of geographic vectors at
 several times

---
 ocbpy/ocb_scaling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 7ab99de..979848d 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1059,9 +1059,10 @@ class VectorData(object):
                 geo_lt = np.asarray(self.lt)
                 geo_lat = np.asarray(self.lat)
 
-                # Re-assign the location values
-                self.lt = np.asarray(mag_lt)
-                self.lat = np.asarray(mag_lat)
+                # Re-assign the location values, there may now be one for each
+                # time
+                self.lt = np.full(shape=geo_lt.shape, fill_value=mag_lt)
+                self.lat = np.full(shape=geo_lat.shape, fill_value=mag_lat)
                 self.loc_coord = 'magnetic'
             else:
                 # Assign the geographic location
-- 
2.43.0


From f259e611c0d8346f9f06f280f2569586ec958768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 73/76] fix: letter case of the coordinates after a location
 update

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 979848d..429a43b 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1022,7 +1022,7 @@ class VectorData(object):
             # Update the location attributes
             self.lat = np.asarray(new_lat).reshape(self.lat.shape)
             self.lt = np.asarray(new_lt).reshape(self.lt.shape)
-            self.loc_coord = coord
+            self.loc_coord = coord.lower()
 
         return
 
-- 
2.43.0


From 914ab72ec8b2bbb127fbdc21eaea1fbb20f8c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 74/76] fix: cursor after unusable criteria in
 retrieve_all_good_indices

---
 ocbpy/cycle_boundary.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 105a424..d386ad4 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -51,15 +51,16 @@ def retrieve_all_good_indices(ocb, min_merit=None, max_merit=None, **kwargs):
     # Initialize the output data
     good_ind = list()
 
-    # Cycle through all records
-    while ocb.rec_ind < ocb.records:
-        ocb.get_next_good_ocb_ind(min_merit=min_merit, max_merit=max_merit,
-                                  **kwargs)
-        if ocb.rec_ind < ocb.records:
-            good_ind.append(int(ocb.rec_ind))
-
-    # Reset the record index
-    ocb.rec_ind = icurrent
+    try:
+        # Cycle through all records
+        while ocb.rec_ind < ocb.records:
+            ocb.get_next_good_ocb_ind(min_merit=min_merit, max_merit=max_merit,
+                                      **kwargs)
+            if ocb.rec_ind < ocb.records:
+                good_ind.append(int(ocb.rec_ind))
+    finally:
+        # Reset the record index, also if the selection criteria are unusable
+        ocb.rec_ind = icurrent
 
     # Return the good indices
     return good_ind
-- 
2.43.0


From 62bb3d5763c5c7d51d2f33bc0264b0d96217c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 75/76] fix: pairs and EAB cursor after unusable criteria in
 set_good_ind

---
 ocbpy/_boundary.py | 76 ++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 067db9f..19f094b 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1302,13 +1302,10 @@ class DualBoundary(object):
             self.rec_ind = 0
             return
 
-        self.dtime = list()
-        self.ocb_ind = list()
-        self.eab_ind = list()
-
-        # Save the current EAB record index
-        icurrent = self.eab.rec_ind
-        self.eab.rec_ind = -1
+        # Initialize the paired data, updating the class when they are complete
+        dtime = list()
+        ocb_ind = list()
+        eab_ind = list()
 
         # Get the good OCB indices
         ocb_kwargs = {} if ocb_kwargs is None else dict(ocb_kwargs)
@@ -1322,37 +1319,42 @@ class DualBoundary(object):
         eab_kwargs['min_merit'] = eab_min_merit
         eab_kwargs['max_merit'] = eab_max_merit
 
-        # Match the EABs with the good OCB times
-        iocb = 0
-        while self.eab.rec_ind < self.eab.records and iocb is not None:
-            # Cycle the OCB record index to match the next good EAB index
-            iocb = cycle_boundary.match_data_ocb(
-                self.eab, self.ocb.dtime[good_ocb], idat=iocb,
-                max_tol=self.max_delta, **eab_kwargs)
-
-            # Save the paired data
-            if iocb is not None and iocb < len(
-                    good_ocb) and self.eab.rec_ind < self.eab.records:
-                self.dtime.append(self.ocb.dtime[good_ocb[iocb]])
-                self.ocb_ind.append(good_ocb[iocb])
-                self.eab_ind.append(self.eab.rec_ind)
-
-                # Each OCB record may only be used once
-                iocb += 1
-            else:
-                iocb = None
-
-            # Cycle to the next good EAB index
-            if self.eab.rec_ind < self.eab.records:
-                self.eab.get_next_good_ocb_ind(**eab_kwargs)
-
-        # Re-cast the class attributes as arrays
-        self.dtime = np.asarray(self.dtime)
-        self.ocb_ind = np.asarray(self.ocb_ind)
-        self.eab_ind = np.asarray(self.eab_ind)
+        # Save the current EAB record index
+        icurrent = self.eab.rec_ind
+        self.eab.rec_ind = -1
 
-        # Reset the EAB index
-        self.eab.rec_ind = icurrent
+        try:
+            # Match the EABs with the good OCB times
+            iocb = 0
+            while self.eab.rec_ind < self.eab.records and iocb is not None:
+                # Cycle the OCB record index to match the next good EAB index
+                iocb = cycle_boundary.match_data_ocb(
+                    self.eab, self.ocb.dtime[good_ocb], idat=iocb,
+                    max_tol=self.max_delta, **eab_kwargs)
+
+                # Save the paired data
+                if iocb is not None and iocb < len(
+                        good_ocb) and self.eab.rec_ind < self.eab.records:
+                    dtime.append(self.ocb.dtime[good_ocb[iocb]])
+                    ocb_ind.append(good_ocb[iocb])
+                    eab_ind.append(self.eab.rec_ind)
+
+                    # Each OCB record may only be used once
+                    iocb += 1
+                else:
+                    iocb = None
+
+                # Cycle to the next good EAB index
+                if self.eab.rec_ind < self.eab.records:
+                    self.eab.get_next_good_ocb_ind(**eab_kwargs)
+        finally:
+            # Reset the EAB index, also if the selection criteria are unusable
+            self.eab.rec_ind = icurrent
+
+        # Set the class attributes, re-casting the paired data as arrays
+        self.dtime = np.asarray(dtime)
+        self.ocb_ind = np.asarray(ocb_ind)
+        self.eab_ind = np.asarray(eab_ind)
 
         # Set the number of good paired records
         self.records = len(self.dtime)
-- 
2.43.0


From fb484d01db3e62a513bbe689aa6c030bb103640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 76/76] fix: arguments of correction functions with the same
 name in the summary

---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 19f094b..1e06538 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -287,7 +287,8 @@ class OCBoundary(object):
                     for ff in fnames:
                         kw = list(set([self.rfunc_kwargs[i].__str__()
                                        for i, rf in enumerate(self.rfunc)
-                                       if rf.__name__ == ff.split(".")[-1]]))
+                                       if ff == ".".join([rf.__module__,
+                                                      rf.__name__])]))
 
                         for kk in kw:
                             out = "{:s}{:s}(**{:s})\n".format(out, ff, kk)
-- 
2.43.0

