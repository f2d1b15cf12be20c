From fb6aa3293923d97a66f308d8df26b7739025ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 01/65] fix: recover omega and kappa with arctan2 so that
 rounding cannot turn them into nan

---
 resippy/utils/photogrammetry_utils.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 6d81595..eb8c831 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -180,18 +180,10 @@ def solve_for_omega_phi_kappa(m_matrix,  # type: ndarray
     m32 = m_matrix[2, 1]
     m21 = m_matrix[1, 0]
 
+    # arctan2 instead of arccos(m / cos(phi)): rounding can push that ratio past 1 and arccos then gives nan
     phi = np.arcsin(m31)
-    cos_phi = np.cos(phi)
-    kappa = np.arccos(m11 / cos_phi)
-    omega = np.arccos(m33 / cos_phi)
-    # if np.isnan(kappa):
-    #     kappa = 0
-    # if np.isnan(omega):
-    #     omega = 0
-    if m32 > 0:
-        omega = -omega
-    if m21 > 0:
-        kappa = -kappa
+    kappa = np.arctan2(-m21, m11)
+    omega = np.arctan2(-m32, m33)
 
     return omega, phi, kappa
 
-- 
2.43.0


From 367b4b224f113ad41618081ac50ef6f3629ef13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 02/65] fix: RPC polynomial term 19 multiplies latitude squared
 by height, not by longitude

---
 .../earth_overhead_point_calculators/rpc_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
index 0f27d9d..83bf413 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
@@ -182,7 +182,7 @@ class RPCPointCalc(AbstractEarthOverheadPointCalc):
 
         p = a1 + a2*y + a3*x + a4*z + a5*xy + a6*yz + a7*xz + a8 * y_squared + \
             a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*y*z_squared + \
-            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*y + a20*z_cubed
+            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*z + a20*z_cubed
         return p
 
     def _lon_lat_alt_to_pixel_x_y_native(self,
-- 
2.43.0


From 3796bb8d8422fc11165be97cb5e36a4650e7ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 03/65] fix: use the third radial distortion coefficient of
 Pix4D cameras instead of the second twice

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index adc58ea..6931343 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -100,7 +100,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         point_calc.tangential_distortion_2 = all_params[image_key_basename]['tangential_distortion'][1]
         point_calc.radial_distortion_1 = all_params[image_key_basename]['radial_distortion'][0]
         point_calc.radial_distortion_2 = all_params[image_key_basename]['radial_distortion'][1]
-        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][1]
+        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][2]
         point_calc.distortion_model = distortion_model
 
         approximate_lon = all_params[image_key_basename]['external_params'][0]
-- 
2.43.0


From 5065e0162b199769a4ccab452c469995d86ed006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 04/65] fix: keep the last parameter of a Pix4D camera file
 that does not end with a blank line

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 resippy/utils/pix4d_utils.py                                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 6931343..75bec1c 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -201,7 +201,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
                 new_camera_param_start_locations.append(i)
 
         new_camera_param_end_locations = new_camera_param_start_locations[1:]
-        new_camera_param_end_locations.append(i)
+        new_camera_param_end_locations.append(len(lines))
 
         camera_params_list = []
 
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index 90acab2..ea57875 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -235,7 +235,7 @@ def read_pix4d_calibrated_internal_camera_parameters(internal_params_cam_file,
             new_camera_param_start_locations.append(i)
 
     new_camera_param_end_locations = new_camera_param_start_locations[1:]
-    new_camera_param_end_locations.append(i)
+    new_camera_param_end_locations.append(len(lines))
 
     camera_params_list = []
 
-- 
2.43.0


From dbc2ec70cd53604bf91370accd447b646d71a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 05/65] fix: a constant altitude of a per-pixel geolocated
 image is the altitude given, not zero

---
 .../earth_overhead_point_calculators/igm_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index d5c7729..1ad7dd1 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -22,7 +22,7 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         self._npix_y, self._npix_x = lon_array.shape
         self.set_projection(projection)
         if isinstance(alt_array, numbers.Number):
-            self._alts = numpy.zeros_like(lon_array)
+            self._alts = numpy.zeros(lon_array.shape) + alt_array
         else:
             self._alts = alt_array
         self._bands_coregistered = True
-- 
2.43.0


From 6aab161f7a71771aaab7ef2a131e2f8e26d3d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 06/65] fix: iterative ground solver no longer divides by the
 pixel-x/longitude derivative, which is zero for rotated sensors

---
 .../abstract_earth_overhead_point_calc.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 0266a9b..50f32a4 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -273,7 +273,7 @@ class AbstractEarthOverheadPointCalc:
             delta_py = pixel_ys - pixel_y_estimate
 
             delta_lat = (delta_py * pxx - pyx * delta_px) / (pyy * pxx - pxy * pyx)
-            delta_lon = (delta_px - delta_lat * pxy) / pxx
+            delta_lon = (delta_px * pyy - pxy * delta_py) / (pyy * pxx - pxy * pyx)
 
             new_lons = lons + delta_lon
             new_lats = lats + delta_lat
-- 
2.43.0


From 3c9d2e15442de168e51d8d32bc04772c8c6b1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 07/65] fix: weight elevation samples by closeness instead of
 distance in bilinear interpolation

---
 resippy/photogrammetry/dem/geotiff_dem.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 27f66a2..e551238 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -113,18 +113,16 @@ class GeotiffDem(AbstractDem):
             elevations_y2x1 = self.dem_data[pixel_locs_y_2, pixel_locs_x_1]
             elevations_y2x2 = self.dem_data[pixel_locs_y_2, pixel_locs_x_2]
 
-            x_distances_1 = pixel_locs_x - pixel_locs_x_1
-            x_distances_2 = pixel_locs_x_2 - pixel_locs_x
-            y_distances_1 = pixel_locs_y - pixel_locs_y_1
-            y_distances_2 = pixel_locs_y_2 - pixel_locs_y
+            x_fractions = np.clip(pixel_locs_x, 0, self.gtiff.get_metadata().get_npix_x() - 1) - pixel_locs_x_1
+            y_fractions = np.clip(pixel_locs_y, 0, self.gtiff.get_metadata().get_npix_y() - 1) - pixel_locs_y_1
 
-            distances_y1x1 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_1))
-            distances_y1x2 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_2))
-            distances_y2x1 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_1))
-            distances_y2x2 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_2))
+            weights_y1x1 = (1.0 - y_fractions) * (1.0 - x_fractions)
+            weights_y1x2 = (1.0 - y_fractions) * x_fractions
+            weights_y2x1 = y_fractions * (1.0 - x_fractions)
+            weights_y2x2 = y_fractions * x_fractions
 
             elevations_arr = np.array((elevations_y1x1, elevations_y1x2, elevations_y2x1, elevations_y2x2))
-            weights_arr = np.array((distances_y1x1, distances_y1x2, distances_y2x1, distances_y2x2))
+            weights_arr = np.array((weights_y1x1, weights_y1x2, weights_y2x1, weights_y2x2))
 
             elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
 
-- 
2.43.0


From a51bbfa39f1f195f0ee786c46a7d98fd142e72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 08/65] fix: elevation models of integer samples can mark
 no-data cells as not-a-number

---
 resippy/photogrammetry/dem/geotiff_dem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index e551238..eab7872 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -64,6 +64,8 @@ class GeotiffDem(AbstractDem):
         self.nodata_value = nodata_value
         if self.nodata_value is not None:
             if self.dem_data is not None:
+                if not np.issubdtype(self.dem_data.dtype, np.floating):
+                    self.dem_data = self.dem_data.astype(float)
                 self.dem_data[np.where(self.dem_data == nodata_value)] = np.nan
 
     def set_geotiff_image(self,
-- 
2.43.0


From 9d4d9b9521c420eb91c410b6ecc01525995f0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 09/65] fix: elevation rasters of a single row or column keep
 both axes

---
 resippy/photogrammetry/dem/geotiff_dem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index eab7872..acdb19e 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -72,7 +72,7 @@ class GeotiffDem(AbstractDem):
                           geotiff_image  # type: GeotiffImage
                           ):  # type: (...) -> None
         self.gtiff = geotiff_image
-        self.dem_data = np.squeeze(self.gtiff.read_all_image_data_from_disk())
+        self.dem_data = self.gtiff.read_all_image_data_from_disk()[:, :, 0]
         self.set_projection(self.gtiff.get_point_calculator().get_projection())
         self.remove_nodata_values(self.nodata_value)
 
-- 
2.43.0


From c1126f7482bcbe8270bde4c9ce39d81d6c25a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 10/65] fix: raise the error for an unknown elevation
 interpolation method

---
 resippy/photogrammetry/dem/dem_factory.py | 2 +-
 resippy/photogrammetry/dem/geotiff_dem.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/dem/dem_factory.py b/resippy/photogrammetry/dem/dem_factory.py
index eaf753c..49eec31 100644
--- a/resippy/photogrammetry/dem/dem_factory.py
+++ b/resippy/photogrammetry/dem/dem_factory.py
@@ -25,7 +25,7 @@ class DemFactory:
         elif interpolation_method == 'nearest':
             gtiff_dem.set_interpolation_to_nearest()
         else:
-            TypeError("interpolation method should either be 'bilinear' or 'nearest'")
+            raise TypeError("interpolation method should either be 'bilinear' or 'nearest'")
         return gtiff_dem
 
     @staticmethod
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index acdb19e..acf1401 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -129,7 +129,7 @@ class GeotiffDem(AbstractDem):
             elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
 
         else:
-            TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
+            raise TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
                       "when getting elevations from a GeoTiff DEM")
 
         # unflatten world_xyz arrays if the original inputs were 2d
-- 
2.43.0


From 10148b6aacc5984dd6430d5c7e98b46f444b3dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 11/65] fix: geotransform of an ortho grid has npix cells, not
 npix + 1

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index eb8c831..c8402be 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -40,8 +40,8 @@ def world_poly_to_geo_t(world_polygon,      # type: Polygon
                         ):                  # type: (...) -> list
     envelope = world_polygon.envelope
     minx, miny, maxx, maxy = envelope.bounds
-    gsd_x = (maxx - minx)/(npix_x + 1)
-    gsd_y = (maxy - miny)/(npix_y + 1)
+    gsd_x = (maxx - minx)/npix_x
+    gsd_y = (maxy - miny)/npix_y
     geot = [minx, gsd_x, 0, maxy, 0, -1*gsd_y]
     return geot
 
-- 
2.43.0


From 20666d60e7816f823e1ee9adb4c36f0b7247eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 12/65] fix: ground grids of a single row or column

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index c8402be..433a7d5 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -59,8 +59,8 @@ def create_ground_grid(min_x,   # type: float
     ground_y_arr = ground_y_arr/npix_y*(max_y - min_y)
     ground_x_arr = ground_x_arr + min_x
     ground_y_arr = ground_y_arr + min_y
-    x_gsd = np.abs(ground_x_arr[0, 1] - ground_x_arr[0, 0])
-    y_gsd = np.abs(ground_y_arr[0, 0] - ground_y_arr[1, 0])
+    x_gsd = np.abs((max_x - min_x)/npix_x)
+    y_gsd = np.abs((max_y - min_y)/npix_y)
     return ground_x_arr + x_gsd/2.0, ground_y_arr - y_gsd/2.0
 
 
-- 
2.43.0


From 6aa6c3be5a6dd64d14758b5a995064dab12cccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 13/65] fix: a band of an image without loaded data is None, as
 its callers expect

---
 resippy/image_objects/abstract_image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/image_objects/abstract_image.py b/resippy/image_objects/abstract_image.py
index 878506c..48eabd7 100644
--- a/resippy/image_objects/abstract_image.py
+++ b/resippy/image_objects/abstract_image.py
@@ -89,6 +89,8 @@ class AbstractImage():
         :param band_num: band number to get
         :return: image band of dimensions (ny, nx)
         """
+        if self._image_data is None:
+            return None
         return self._image_data[:, :, band_num]
 
     def set_image_band(self,
-- 
2.43.0


From 9af102286e984d31b53fc1bc4cd894a16221ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 14/65] fix: keep fractional and not-a-number no-data values of
 written geotiffs

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 7b6244f..3405f7f 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -115,7 +115,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(float(self.get_metadata().get_nodata_val()))
         return dataset
 
     def write_to_disk(self,
@@ -139,7 +139,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(float(self.get_metadata().get_nodata_val()))
         dataset.FlushCache()
         dataset = None
 
-- 
2.43.0


From 3716afb0fa6a801a0dd9f809dfe730460d085a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 15/65] fix: fill pixels outside of the sensor image with the
 no-data value for bands that are not co-registered

---
 resippy/photogrammetry/ortho_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6c5443b..df7e049 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -212,7 +212,8 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
             regridded = map_coordinates(image_data,
                                         [image_utils.flatten_image_band(pixels_y),
                                          image_utils.flatten_image_band(pixels_x)],
-                                        order=spline_order)
+                                        order=spline_order,
+                                        cval=nodata_val)
 
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
             regridded = regridded.astype(im_tp)
-- 
2.43.0


From 02792dbc6322b53aefe9f7bb58fbd4f133044132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 16/65] fix: ortho images of co-registered bands keep the outer
 rows and columns of the sensor image

---
 resippy/photogrammetry/ortho_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index df7e049..036292c 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -236,11 +236,11 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded = regridded.astype(im_tp)
 
-            regridded[np.where(pixels_x <= 0)] = nodata_val
-            regridded[np.where(pixels_x >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val
+            regridded[np.where(pixels_x < 0)] = nodata_val
+            regridded[np.where(pixels_x > overhead_image.metadata.get_npix_x() - 1)] = nodata_val
 
-            regridded[np.where(pixels_y <= 0)] = nodata_val
-            regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
+            regridded[np.where(pixels_y < 0)] = nodata_val
+            regridded[np.where(pixels_y > overhead_image.metadata.get_npix_y() - 1)] = nodata_val
             images.append(regridded)
 
     orthorectified_image = np.stack(images, axis=2)
-- 
2.43.0


From 73918db89957737e9b5f3a1b019fe69b0f59e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 17/65] fix: ray casting no longer uses np.int, which current
 numpy does not have

---
 .../abstract_earth_overhead_point_calc.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 50f32a4..70930ce 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -362,7 +362,7 @@ class AbstractEarthOverheadPointCalc:
         all_elevations = dem.get_elevations(np.array(lons_matrix), np.array(lats_matrix), world_proj=self.get_projection())
 
         ray = np.linspace(max_alt, min_alt, n_steps_per_ray)
-        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=np.int)
+        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=int)
         ray_step_indices = list(range(n_steps_per_ray))
         ray_step_indices.reverse()
         for i in ray_step_indices:
-- 
2.43.0


From 38fafe9c58b63b2a532c0bb8a95323539647145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 18/65] fix: cast rays on flat elevation models and vertical
 rays, which have no horizontal steps

---
 .../abstract_earth_overhead_point_calc.py              | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 70930ce..e4abb8b 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -336,9 +336,10 @@ class AbstractEarthOverheadPointCalc:
             min_alt = dem.get_lowest_alt()
         alt_range = max_alt - min_alt
 
-        # put the max and min alts at 1 percent above and below the maximum returned by the DEM
-        max_alt = max_alt + alt_range * 0.01
-        min_alt = min_alt - alt_range * 0.01
+        # put the max and min alts at 1 percent above and below the maximum returned by the DEM (1 meter for a flat DEM)
+        alt_margin = alt_range * 0.01 if alt_range > 0 else 1
+        max_alt = max_alt + alt_margin
+        min_alt = min_alt - alt_margin
 
         lons_max_alt, lats_max_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, max_alt, band=band)
         lons_min_alt, lats_min_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, min_alt, band=band)
@@ -349,7 +350,8 @@ class AbstractEarthOverheadPointCalc:
 
         ray_horizontal_lens = np.sqrt(
             np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
-        n_steps_per_ray = int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1)
+        # rays need at least their two end points, also when they are vertical
+        n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
         lons_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
         lats_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
-- 
2.43.0


From c1b58bc62c0a9483c09c309fdef97696e61eeaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 19/65] fix: write bands of a single row as a row, not as a
 column

---
 .../earth_overhead/micasense/micasense_image_factory.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
index 653c2bc..c870f19 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
@@ -126,7 +126,7 @@ class MicasenseImageFactory:
                 band_basename = band_basenames[band]
             else:
                 band_basename = None
-            fn = write_tmp_band(np.squeeze(image_data[:,:,band]), working_dir, band_basename)
+            fn = write_tmp_band(image_data[:,:,band], working_dir, band_basename)
             micasense_image.band_fnames.append(fn)
 
         micasense_image.set_metadata(metadata)
-- 
2.43.0


From 0a6610e6192ced2439b85c21497ba9d3749695d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 20/65] fix: highest elevation is not truncated to the type of
 the pixel numbers in the obstruction test

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 036292c..b0f1880 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -390,7 +390,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     DEFAULT_DEM_RESOLUTION = 5
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
-    highest_alts = np.zeros_like(pixels_x)
+    highest_alts = np.zeros(np.shape(pixels_x))
     highest_alts[:] = dem.get_highest_alt() + 0.001
 
     if alts is None:
-- 
2.43.0


From f476dfc868b9dc89ed185bf79cdd05c54b2de6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 21/65] fix: test for obstruction along the line of sight, at
 its true length, instead of behind the ground position

---
 resippy/photogrammetry/ortho_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index b0f1880..8324146 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -399,9 +399,9 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     obstructed_mask = np.zeros_like(lons)
 
     lons_highest, lats_highest = earth_overhead_image.get_point_calculator().pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, highest_alts, band=band)
-    lon_diffs = lons - lons_highest
-    lat_diffs = lats - lats_highest
-    horizontal_distances = np.sqrt(np.square(lon_diffs + lat_diffs))
+    lon_diffs = lons_highest - lons
+    lat_diffs = lats_highest - lats
+    horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
-- 
2.43.0


From bcd99244cd8f4dc0f1591d0fca77aa4916fde920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 22/65] fix: ask the elevation model for heights in the
 projection the positions are in

---
 resippy/photogrammetry/ortho_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 8324146..93a50e2 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -80,7 +80,7 @@ def get_pixel_lon_lats(overhead_image,  # type: AbstractEarthOverheadImage
                                                                      pixel_error_threshold=pixel_error_threshold,
                                                                      max_iter=max_iter)
     # get differences from the highest alt using the dem
-    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest)
+    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest, world_proj=point_calc.get_projection())
     new_alts = alts - alt_diff
     lons_low, lats_low = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, new_alts,
                                                              band=band,
@@ -387,6 +387,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
                                  dem_resolution=None,   # type: float
                                  band=0,                # type: int
                                  ):  # type: (...) -> ndarray
+    native_proj = earth_overhead_image.get_point_calculator().get_projection()
     DEFAULT_DEM_RESOLUTION = 5
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
@@ -394,7 +395,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     highest_alts[:] = dem.get_highest_alt() + 0.001
 
     if alts is None:
-        alts = dem.get_elevations(lons, lats)
+        alts = dem.get_elevations(lons, lats, world_proj=native_proj)
 
     obstructed_mask = np.zeros_like(lons)
 
@@ -408,7 +409,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     for step in np.arange(1, n_dem_steps):
         test_lons = lons + lon_diffs * (step) / n_dem_steps
         test_lats = lats + lat_diffs * (step) / n_dem_steps
-        test_alts = dem.get_elevations(test_lons, test_lats)
+        test_alts = dem.get_elevations(test_lons, test_lats, world_proj=native_proj)
         obstruction_heights = alts + vertical_distances * step / n_dem_steps
         obstructed_mask[np.where(test_alts > obstruction_heights)] = 1
     return obstructed_mask
-- 
2.43.0


From 99b3b655f5a56b730fe0c7836e9e262837d52925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 23/65] fix: sampling of pixel values no longer uses np.int,
 which current numpy does not have

---
 resippy/photogrammetry/ortho_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 93a50e2..d353bab 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,12 +34,12 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(np.int)
+    wh = np.round(window/2.0).astype(int)
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-        locs = zip(np.round(x).astype(np.int), np.round(y).astype(np.int))
+        locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
             try:
-- 
2.43.0


From 8a3770b04843cb9628211b7833f820020684b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 24/65] fix: clip sampling windows at the upper and left border
 of the image

---
 resippy/photogrammetry/ortho_tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index d353bab..b67ad4d 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -43,10 +43,11 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
         vals = []
         for item in locs:
             try:
-                xmin = item[0] - wh
-                xmax = item[0] + wh
-                ymin = item[1] - wh
-                ymax = item[1] + wh
+                # negative limits would count from the far end of the image
+                xmin = max(item[0] - wh, 0)
+                xmax = max(item[0] + wh, 0)
+                ymin = max(item[1] - wh, 0)
+                ymax = max(item[1] + wh, 0)
                 pix_win = img[ymin:ymax, xmin:xmax]
                 good_inds = pix_win != nodata
                 val = np.mean(pix_win[good_inds])
-- 
2.43.0


From 619e375a5a0fa2f19d4fab9470f8441c4c4419f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 25/65] fix: ENVI data types 6 and 9 are single and double
 precision complex

---
 resippy/utils/envi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index a6260d9..3fa4e9d 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -8,10 +8,10 @@ ENVI_DTYPES_TO_NUMPY = {"1": np.uint8,
                         "3": np.int32,
                         "4": np.float32,
                         "5": np.float64,
-                        "6": None,
+                        "6": np.complex64,
                         "7": None,
                         "8": None,
-                        "9": np.complex64,
+                        "9": np.complex128,
                         "10": None,
                         "11": None,
                         "12": np.uint16,
-- 
2.43.0


From b8d4c240d8ce7bf37a4973b6aa22f2d76364bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 26/65] fix: do not read ENVI files of an unsupported data type
 as float64

---
 resippy/utils/envi_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 3fa4e9d..b56d66e 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -238,6 +238,8 @@ def read_all_image_data_to_numpy_array(envi_image_path,     # type: str
                                        envi_dtype,          # type: int
                                        ):                   # type: (...) -> np.ndarray
     numpy_dtype = envi_dtype_to_numpy_dtype(envi_dtype)
+    if numpy_dtype is None:
+        raise ValueError("ENVI data type " + str(envi_dtype) + " is not supported")
     numpy_data = np.fromfile(envi_image_path, numpy_dtype)
     return numpy_data
 
-- 
2.43.0


From 7d09823ecc1265355bb28e28a441bc9b9dd54e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 27/65] fix: write and read ENVI images in the bip and bsq
 interleaves too

---
 resippy/utils/envi_utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index b56d66e..2fa36d3 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -182,7 +182,6 @@ def write_envi_header(header_dict,      # type: dict
             f.write("\n")
 
 
-# TODO: add more interleave formats, only BIP is currently supported
 def write_envi_image(image_cube,                    # type: np.ndarray
                      output_fname,                  # type: str
                      output_header_fname=None,      # type: str
@@ -199,6 +198,12 @@ def write_envi_image(image_cube,                    # type: np.ndarray
                 data_chunk = image_cube[l, :, b]
                 raw_data[raw_data_counter:raw_data_counter+nx] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        raw_data[:] = image_cube.reshape(ny*nx*nbands)
+    elif interleave == 'bsq':
+        raw_data[:] = image_cube.transpose(2, 0, 1).reshape(ny*nx*nbands)
+    else:
+        raise ValueError("unknown interleave: " + str(interleave))
     raw_data.tofile(output_fname)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
@@ -228,7 +233,7 @@ def read_envi_image(image_file,             # type: str
     ny = int(envi_header['lines'])
     nbands = int(envi_header['bands'])
     envi_dtype = envi_header['data type']
-    interleave = envi_header['interleave']
+    interleave = envi_header['interleave'].lower()
     envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype)
     image_cube = construct_image_cube_from_raw_data(envi_image_data, nx, ny, nbands, interleave)
     return image_cube
@@ -258,4 +263,10 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                 data_chunk = raw_envi_data[raw_data_counter:raw_data_counter+nx]
                 image_cube[l, :, b] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        image_cube[:] = raw_envi_data.reshape((ny, nx, nbands))
+    elif interleave == 'bsq':
+        image_cube[:] = raw_envi_data.reshape((nbands, ny, nx)).transpose(1, 2, 0)
+    else:
+        raise ValueError("unknown interleave: " + str(interleave))
     return image_cube
-- 
2.43.0


From 2435b6fc2a62438c4f0515be5dfe1a2c456e439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 28/65] fix: ENVI header values may contain an equals sign

---
 resippy/utils/envi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 2fa36d3..eb68e5b 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -131,7 +131,7 @@ def read_envi_header(header_fname,      # type: str
         elif is_equals_entry(header_text):
             linesep_index = header_text.find(os.linesep)
             entry_text = header_text[0:linesep_index]
-            key, val = entry_text.split('=')
+            key, val = entry_text.split('=', 1)
             header_text = header_text[linesep_index + 1:]
 
         elif entry_has_newline(header_text):
-- 
2.43.0


From 275718592f7e6cf6c90e03d6a665e76fd2a07c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 29/65] fix: read the last ENVI header entry when the file does
 not end in a newline

---
 resippy/utils/envi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index eb68e5b..615ff68 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -87,7 +87,7 @@ def read_envi_header(header_fname,      # type: str
     with open(header_fname, 'r') as content_file:
         header_text = content_file.read()
 
-    header_text = string_utils.cleanup_newlines(header_text)
+    header_text = string_utils.cleanup_newlines(header_text) + os.linesep
 
     envi_header_dict = {}
 
-- 
2.43.0


From 224d9710ecb07c14cb23fafbeb73263a6a3010c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 30/65] fix: keep the closing brace of bracketed ENVI header
 entries

---
 resippy/utils/envi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 615ff68..3596d91 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -124,7 +124,7 @@ def read_envi_header(header_fname,      # type: str
 
         if is_bracket_entry(header_text):
             right_brace_index = header_text.find('}')
-            entry_text = header_text[0:right_brace_index]
+            entry_text = header_text[0:right_brace_index + 1]
             key, val = str.split(entry_text, '=', 1)
             header_text = header_text[right_brace_index + 1:]
 
-- 
2.43.0


From 82b4d39b949d63ab59a1f5f2e0e0fcdb1747e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 31/65] fix: write arrays in ENVI headers as bracketed lists
 with all their digits

---
 resippy/utils/envi_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 3596d91..0a52eec 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -178,6 +178,8 @@ def write_envi_header(header_dict,      # type: dict
     with open(header_fname, "w") as f:
         f.write("ENVI" + "\n")
         for key, val in header_dict.items():
+            if isinstance(val, np.ndarray):
+                val = "{" + ", ".join(str(v) for v in val.tolist()) + "}"
             f.write(key + " = " + str(val))
             f.write("\n")
 
-- 
2.43.0


From aa7ee5b00373159209e07d5be7003bb90e25170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 32/65] fix: chipping without a band selection no longer uses
 np.int, which current numpy does not have

---
 resippy/utils/image_utils/image_chipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index afe9b84..d4718f0 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -86,7 +86,7 @@ def chip_images_by_pixel_upper_lefts(input_image,                   # type: ndar
     n_chips = len(pixel_y_ul_list)
 
     if bands is None:
-        bands = np.arange(0, nbands).astype(np.int)
+        bands = np.arange(0, nbands)
     else:
         nbands = len(bands)
 
-- 
2.43.0


From 1b8fd19ff10bb7a0058c0ca9d464eb6056f672e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 33/65] fix: chips of odd size have their centre pixel in the
 middle

---
 resippy/utils/image_utils/image_chipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index d4718f0..34545f1 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -124,8 +124,8 @@ def chip_images_by_pixel_centers(input_image,                   # type: ndarray
                                  ):                             # type: (...) -> (ndarray, list)
     pixel_x_center_list = np.array(pixel_x_center_list)
     pixel_y_center_list = np.array(pixel_y_center_list)
-    pixel_x_ul_list = (pixel_x_center_list - chip_nx_pixels/2.0).astype(int)
-    pixel_y_ul_list = (pixel_y_center_list - chip_ny_pixels/2.0).astype(int)
+    pixel_x_ul_list = (pixel_x_center_list - chip_nx_pixels//2).astype(int)
+    pixel_y_ul_list = (pixel_y_center_list - chip_ny_pixels//2).astype(int)
     return chip_images_by_pixel_upper_lefts(
         input_image, pixel_y_ul_list=pixel_y_ul_list, pixel_x_ul_list=pixel_x_ul_list,
         chip_ny_pixels=chip_ny_pixels, chip_nx_pixels=chip_nx_pixels,
-- 
2.43.0


From 42437416d516d8d6ed78f1e88b000568190c2d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 34/65] fix: write grayscale chips to disk

---
 resippy/utils/image_utils/image_chipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index 34545f1..b58df04 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -146,10 +146,10 @@ def write_chips_to_disk(image_chips,            # type: ndarray
         base_chip_fname = os.path.basename(output_dir)
     n_chips = get_nchips(image_chips)
     for i in range(n_chips):
-        chip = image_chips[i, :, :, :]
+        chip = image_chips[i]
         if output_chip_ny is not None:
             chip = image_utils.resize_image(chip, output_chip_ny, output_chip_nx)
-        if remove_alpha is True and chip.shape[-1] == 4:
+        if remove_alpha is True and chip.ndim == 3 and chip.shape[-1] == 4:
             chip = chip[:, :, 0:3]
         chip_fname = base_chip_fname + "_" + str(i).zfill(8)
         if fnames_list is not None:
-- 
2.43.0


From f71747f3ea895a6e510354eb1b15e0c05fdf1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 35/65] fix: normalising integer images no longer overflows
 their type

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6accb45..121f848 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -123,8 +123,8 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
 
 
 def normalize_grayscale_image(input_image, new_min, new_max, output_dtype=None):
-    image_min = np.min(input_image)
-    image_max = np.max(input_image)
+    image_min = float(np.min(input_image))
+    image_max = float(np.max(input_image))
     image_zero_to_one = (input_image - image_min)/(image_max-image_min)
     normalized_image = image_zero_to_one * (new_max - new_min) + new_min
     if output_dtype is None:
-- 
2.43.0


From 43ac966600ba8483f31543ae783b4141eb8d608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 36/65] fix: colour maps with more than 128 bins no longer
 overflow their bin numbers

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 121f848..9d53567 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -205,8 +205,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
-    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
-    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
+    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int64)
+    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int64)
     image_low_palette_index = np.zeros(grayscale_image.shape)
     image_high_palette_index = np.zeros(grayscale_image.shape)
 
-- 
2.43.0


From a9f8fa21fc9a525fc1819e9109e1b71f4ef83e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 37/65] fix: the default range of discrete colour maps no
 longer overflows integer image types

---
 resippy/utils/image_utils/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 9d53567..bea6258 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -202,7 +202,7 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         n_bins = np.shape(color_palette)[0]
 
     if continuous is not True:
-        max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
+        max_clip = min_clip + (float(max_clip) - float(min_clip)) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
     image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int64)
-- 
2.43.0


From d3c9489eda00fec6b32fd938cebec0c36e46248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 38/65] fix: spectral angle scores of integer images no longer
 overflow their type

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 6569ec7..188b21b 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -165,6 +165,10 @@ def ace_demeaned(demeaned_image,            # type: ndarray
 def sam(spectral_image,     # type: ndarray
         target_spectra      # type: ndarray
         ):                  # type: (...) -> ndarray
+    # integer products would overflow
+    spectral_image = np.asanyarray(spectral_image, dtype=float)
+    target_spectra = np.asanyarray(target_spectra, dtype=float)
+
     # Python 3.5+
     # numerator = target_spectra @ spectral_image.transpose()
     # Python 2.7 - 3.4
-- 
2.43.0


From e973e49940c87c01de7c11461794239fb3dd9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 39/65] fix: detector deviations from an integer mean no longer
 overflow the type of an integer image

---
 resippy/spectral/spectral_image_processing_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 188b21b..bbefaa2 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -52,7 +52,7 @@ def rx_anomaly_detector(spectral_image,             # type: ndarray
         scene_covariance = compute_image_cube_spectral_covariance(
             spectral_image)
         inverse_covariance = np.linalg.inv(scene_covariance)
-    demeaned_image = np.subtract(spectral_image, spectral_mean)
+    demeaned_image = np.subtract(spectral_image, spectral_mean, dtype=float)
 
     # Python 3.5+
     # rx_rt_side = inverse_covariance @ demeaned_image.transpose()
@@ -88,8 +88,8 @@ def ace(spectral_image,             # type: ndarray
         scene_covariance = compute_image_cube_spectral_covariance(
             spectral_image, image_mask)
         inverse_covariance = np.linalg.inv(scene_covariance)
-    demeaned_image = np.subtract(spectral_image, spectral_mean)
-    demeaned_target_sig_array = target_spectra - spectral_mean
+    demeaned_image = np.subtract(spectral_image, spectral_mean, dtype=float)
+    demeaned_target_sig_array = np.subtract(target_spectra, spectral_mean, dtype=float)
 
     # Python 3.5+
     # ace_numerator = inverse_covariance @ demeaned_image.transpose()
-- 
2.43.0


From ea5d141be134c600a31042294b5866bd3ddefea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 40/65] fix: the covariance equalisation transform of image
 cubes no longer requires masks

---
 resippy/spectral/spectral_image_processing_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index ef5c91d..f8b931f 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -146,8 +146,8 @@ def compute_cov_eq_linear_transform_matrix(input_scene,                 # type:
                                            ):                           # type: (...) -> ndarray
     flattened_1 = spectral_tools.flatten_image_cube(input_scene)
     flattened_2 = spectral_tools.flatten_image_cube(scene_to_match)
-    flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
-    flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
+    flattened_mask_1 = None if input_scene_mask is None else image_utils.flatten_image_band(input_scene_mask)
+    flattened_mask_2 = None if scene_to_match_mask is None else image_utils.flatten_image_band(scene_to_match_mask)
     big_l = spectral_image_processing_1d.compute_cov_eq_linear_transform_matrix(flattened_1,
                                                                                 flattened_2,
                                                                                 flattened_mask_1,
-- 
2.43.0


From 6afc19a310adf146c40ca5482ad73ec092ddfa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 41/65] fix: spectra of integer samples can be read with
 no-data replacement

---
 resippy/spectral/spectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 493a2a4..1f702d1 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -39,6 +39,9 @@ class Spectrum:
         spectral_data = copy.deepcopy(self._spectral_data)
         if nodata_to_nan:
             # spectral_data_nodata_replaced = copy.deepcopy(self._spectral_data)
+            if not np.issubdtype(spectral_data.dtype, np.inexact):
+                # types without a not-a-number value cannot mark missing samples
+                spectral_data = spectral_data.astype(np.float64)
             spectral_data[np.where(spectral_data == self.get_nodata_val())] = np.nan
         if with_units:
             spectral_data = spectral_data * self.get_spectrum_units()
-- 
2.43.0


From 91ec86c6685a8ad65d6bdc84540e33093ea71b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 42/65] fix: leap seconds take effect at their UTC instant
 whatever the time zone of the machine

---
 resippy/utils/time_utils.py | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index 167a7cc..f8786e4 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -1,33 +1,33 @@
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 from bisect import bisect_right
 import math
 
 # table of UTC leap second insertions since 1980 (http://hpiers.obspm.fr/eop-pc/index.php?index=TAI-UTC_tab&lang=en)
 _LEAPSECONDS = [
-    (datetime(1980, 1, 1).timestamp(), timedelta(seconds=19)),
-    (datetime(1981, 7, 1).timestamp(), timedelta(seconds=20)),
-    (datetime(1982, 7, 1).timestamp(), timedelta(seconds=21)),
-    (datetime(1983, 7, 1).timestamp(), timedelta(seconds=22)),
-    (datetime(1985, 7, 1).timestamp(), timedelta(seconds=23)),
-    (datetime(1988, 1, 1).timestamp(), timedelta(seconds=24)),
-    (datetime(1990, 1, 1).timestamp(), timedelta(seconds=25)),
-    (datetime(1991, 1, 1).timestamp(), timedelta(seconds=26)),
-    (datetime(1992, 7, 1).timestamp(), timedelta(seconds=27)),
-    (datetime(1993, 7, 1).timestamp(), timedelta(seconds=28)),
-    (datetime(1994, 7, 1).timestamp(), timedelta(seconds=29)),
-    (datetime(1996, 1, 1).timestamp(), timedelta(seconds=30)),
-    (datetime(1997, 7, 1).timestamp(), timedelta(seconds=31)),
-    (datetime(1999, 1, 1).timestamp(), timedelta(seconds=32)),
-    (datetime(2006, 1, 1).timestamp(), timedelta(seconds=33)),
-    (datetime(2009, 1, 1).timestamp(), timedelta(seconds=34)),
-    (datetime(2012, 7, 1).timestamp(), timedelta(seconds=35)),
-    (datetime(2015, 7, 1).timestamp(), timedelta(seconds=36)),
-    (datetime(2017, 1, 1).timestamp(), timedelta(seconds=37))
+    (datetime(1980, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=19)),
+    (datetime(1981, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=20)),
+    (datetime(1982, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=21)),
+    (datetime(1983, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=22)),
+    (datetime(1985, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=23)),
+    (datetime(1988, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=24)),
+    (datetime(1990, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=25)),
+    (datetime(1991, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=26)),
+    (datetime(1992, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=27)),
+    (datetime(1993, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=28)),
+    (datetime(1994, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=29)),
+    (datetime(1996, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=30)),
+    (datetime(1997, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=31)),
+    (datetime(1999, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=32)),
+    (datetime(2006, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=33)),
+    (datetime(2009, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=34)),
+    (datetime(2012, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=35)),
+    (datetime(2015, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=36)),
+    (datetime(2017, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=37))
 ]
 
 # reference epoch for GPS and UTC time
-_GPS_EPOCH = datetime(1980, 1, 6)
-_UNIX_EPOCH = datetime(1970, 1, 1)
+_GPS_EPOCH = datetime(1980, 1, 6, tzinfo=timezone.utc)
+_UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 # other constants
 _SECONDS_IN_MINUTE = 60
-- 
2.43.0


From 82f6342c923d91f820414006dcfb055d85c90922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 43/65] fix: GPS to UTC conversion looks up the leap seconds at
 the UTC time

---
 resippy/utils/time_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index f8786e4..faf9a6a 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -60,7 +60,9 @@ def utc_timestamp_to_gps_timestamp(utc_timestamp    # type: float
 def gps_timestamp_to_utc_timestamp(gps_timestamp    # type: float
                                    ):               # type: (...) -> float
     utc_timestamp_with_leap = gps_timestamp + (_GPS_EPOCH.timestamp() - _UNIX_EPOCH.timestamp())
-    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    # the leap second table is in UTC, and the time with leap seconds is ahead of UTC
+    utc_timestamp = utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp).total_seconds()
 
 
 def utc_timestamp_to_gps_week_and_seconds(utc_timestamp     # type: float
-- 
2.43.0


From b72e7c787919f0b74bf1ae955c55d880acb407fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:55 +0000
Subject: [PATCH 44/65] fix: incomplete lines of navigation files no longer
 shift the columns against each other

---
 resippy/photogrammetry/nav/applanix_eo_nav.py | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index 0d0c715..465f3a6 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -27,17 +27,20 @@ class ApplanixEONav(AbstractNav):
                 line_parts = line.split()
 
                 try:
-                    gps_time.append(float(line_parts[1]))
-                    easting.append(float(line_parts[2]))
-                    northing.append(float(line_parts[3]))
-                    height.append(float(line_parts[4]))
-                    omega.append(float(line_parts[5]))
-                    phi.append(float(line_parts[6]))
-                    kappa.append(float(line_parts[7]))
-                    lat.append(float(line_parts[8]))
-                    lon.append(float(line_parts[9]))
+                    values = [float(line_parts[i]) for i in range(1, 10)]
                 except (IndexError, ValueError):
-                    pass
+                    # not a complete record
+                    continue
+
+                gps_time.append(values[0])
+                easting.append(values[1])
+                northing.append(values[2])
+                height.append(values[3])
+                omega.append(values[4])
+                phi.append(values[5])
+                kappa.append(values[6])
+                lat.append(values[7])
+                lon.append(values[8])
 
         self._nav_data = {
             'gps_time': np.array(gps_time),
-- 
2.43.0


From 7e581b2197a39139b39354d2a3fa582c0abf0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 45/65] fix: capture positions use the whole degree and minute
 fractions of the image tags

---
 .../earth_overhead/micasense/micasense_image.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index b3ae344..0aeb0cb 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -67,10 +67,10 @@ class MicasenseImage(AbstractEarthOverheadImage):
         dms = dms_tag.values
         ref = ref_tag.values
 
-        d = dms[0].num
-        m = dms[1].num
+        d = dms[0].num / dms[0].den
+        m = dms[1].num / dms[1].den
         s = dms[2].num / dms[2].den
 
         sign = -1 if ref == 'S' or ref == 'W' else 1
 
-        return sign * (int(d) + float(m) / 60 + float(s) / 3600)
+        return sign * (float(d) + float(m) / 60 + float(s) / 3600)
-- 
2.43.0


From d6262f223c092882a8ed5d15021dbf7baa167fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 46/65] fix: sub-second capture times keep their leading zeros

---
 .../image_objects/earth_overhead/micasense/micasense_image.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index 0aeb0cb..60261fa 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -44,7 +44,7 @@ class MicasenseImage(AbstractEarthOverheadImage):
         __, seconds_in_week = time_utils.utc_timestamp_to_gps_week_and_seconds(utc_timestamp)
 
         timestamp_decimal_str = str(exif_data['EXIF SubSecTime'])
-        timestamp_decimal = float('0.{}'.format(int(timestamp_decimal_str)))
+        timestamp_decimal = float('0.{}'.format(timestamp_decimal_str.strip()))
 
         output_dict = {'gps_timestamp': seconds_in_week + timestamp_decimal}
 
-- 
2.43.0


From ce6ad43fdc3f2cc575463bb6389cab1df880976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 47/65] fix: text lists that are empty or end in an empty line
 survive being written and read back

---
 resippy/utils/file_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 591d780..97609ea 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -78,7 +78,6 @@ def write_text_list_to_file(text_list,  # type: list
                             output_fname,  # type: str
                             ):              # type: (...) -> None
     text_list_with_newlines = [entry + '\n' for entry in text_list]
-    text_list_with_newlines[-1] = text_list[-1]
     with open(output_fname, 'w') as f:
         f.writelines(text_list_with_newlines)
 
-- 
2.43.0


From 3eed2ae6953c6367153912764a495f24e3276ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 48/65] fix: newline clean-up no longer doubles newlines on
 platforms that end lines with two characters

---
 resippy/utils/string_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/string_utils.py b/resippy/utils/string_utils.py
index 8f81c17..2150c05 100644
--- a/resippy/utils/string_utils.py
+++ b/resippy/utils/string_utils.py
@@ -8,10 +8,10 @@ def cleanup_newlines(text,   # type: str
     stuff
     """
 
-    newline_chars = ['\r\n', '\r', '\n']
+    newline_chars = ['\r\n', '\r']
     for newline_char in newline_chars:
-        text = text.replace(newline_char, os.linesep)
-    return text
+        text = text.replace(newline_char, '\n')
+    return text.replace('\n', os.linesep)
 
 
 def remove_newlines(text,   # type: str
-- 
2.43.0


From 5a34b15230ce36a6ef52737e2a5eadff6bd66e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 49/65] fix: tables without rows have empty columns

---
 resippy/utils/csv_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/csv_utils.py b/resippy/utils/csv_utils.py
index ff125e2..2c3731d 100644
--- a/resippy/utils/csv_utils.py
+++ b/resippy/utils/csv_utils.py
@@ -14,7 +14,7 @@ class CsvUtils:
             reader = csv.reader(f, delimiter=delimiter)
             header = next(reader) # skip header
             data = [row for row in reader]
-            data = np.asarray(data)
+            data = np.asarray(data).reshape(len(data), len(header))
         csv_dict = {}
         for i, header_name in enumerate(header):
             csv_dict[header_name] = data[:, i]
-- 
2.43.0


From e7d32611c0d2372173019a2bbc634e49319cecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 50/65] fix: local UTM projection uses the zone number without
 the latitude band letter

---
 resippy/utils/proj_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/proj_utils.py b/resippy/utils/proj_utils.py
index f1d1bb2..0776556 100644
--- a/resippy/utils/proj_utils.py
+++ b/resippy/utils/proj_utils.py
@@ -32,5 +32,5 @@ def decimal_degrees_to_local_utm_proj(lon_decimal_degrees,      # type: float
     zone_string = str(zone_info[2]) + zone_info[3]
     zone_letter = zone_string[-1]
     is_south_zone = zone_letter < 'N'
-    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_string, south=is_south_zone)
+    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_info[2], south=is_south_zone)
     return local_proj
-- 
2.43.0


From 93f7ca5314e85f5068e365f10155a801ee23548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 51/65] fix: the camera simulator reads the attitude in its own
 unit

---
 resippy/utils/physical_camera_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 4d2cc6d..127dd37 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -90,9 +90,9 @@ class PhysicalCameraSimulator:
                                                                              order=self._boresight_rpy_order)
 
         fixtured_camera.set_fixture_orientation_by_roll_pitch_yaw(roll, pitch, yaw,
-                                                                  roll_units=self._boresight_units,
-                                                                  pitch_units=self._boresight_units,
-                                                                  yaw_units=self._boresight_units)
+                                                                  roll_units=self._external_orientation_rpy_units,
+                                                                  pitch_units=self._external_orientation_rpy_units,
+                                                                  yaw_units=self._external_orientation_rpy_units)
 
         camera_1_m_matrix = fixtured_camera.get_camera_absolute_M_matrix()
         omega, phi, kappa = photogrammetry_utils.solve_for_omega_phi_kappa(camera_1_m_matrix)
-- 
2.43.0


From 38a92f9d756d890e5f8502392852b28e267f561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 52/65] fix: the camera simulator looks up ground points in the
 projection they are in

---
 resippy/utils/physical_camera_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 127dd37..62799e7 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -131,7 +131,8 @@ class PhysicalCameraSimulator:
         gtiff_x_vals, gtiff_y_vals = self._gtiff_image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(
             pass1_lons,
             pass1_lats,
-            numpy.zeros_like(pass1_lons))
+            numpy.zeros_like(pass1_lons),
+            world_proj=point_calc.get_projection())
 
         if self._gtiff_image_data is None:
             self._gtiff_image_data = self._gtiff_image_object.read_band_from_disk(0)
-- 
2.43.0


From 20d65412aa0a2da1fdec178e75b9beed0d32e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 53/65] fix: chips are scored without a progress ledger

---
 .../neural_net_model_scoring/keras_image_scoring.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 5e04b8e..a211544 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -43,7 +43,8 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
         preds = trained_keras_model.predict(chip)
         scores.append(preds)
-        atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
+        if atk_chain_ledger is not None:
+            atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
     scores = np.squeeze(np.array(scores))
     if labels is not None and thing_to_find is not None:
-- 
2.43.0


From 5c50ce48f08d5c6ca3cb19c916c5f1dc143b19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 54/65] fix: chip scores keep one row per chip for a single
 chip or class

---
 .../neural_net_model_scoring/keras_image_scoring.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index a211544..19d20c2 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -46,7 +46,7 @@ def chip_and_score_image(input_image,               # type: np.ndarray
         if atk_chain_ledger is not None:
             atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
-    scores = np.squeeze(np.array(scores))
+    scores = np.concatenate(scores, axis=0)  # shape is (n_chips, n_classes)
     if labels is not None and thing_to_find is not None:
         thing_to_find_index = labels.index(thing_to_find)
         scores = scores[:, thing_to_find_index]
-- 
2.43.0


From 06da8e624a61720d2dbcf2d4b0a1967449dbb62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:23 +0000
Subject: [PATCH 55/65] fix: default-size orthos accept the pixels as arrays
 and the first band asked for

---
 resippy/photogrammetry/ortho_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index b67ad4d..390ecc2 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -126,11 +126,12 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
     if gsd_meters is None:
         nx = overhead_image.metadata.get_npix_x()
         ny = overhead_image.metadata.get_npix_y()
+        band = 0 if bands is None else np.ravel(bands)[0]
         native_lons, native_lats = get_pixel_lon_lats(overhead_image,
                                                       dem,
-                                                      bands,
-                                                      pixels_x=[0, nx-1, 0],
-                                                      pixels_y=[0, 0, ny-1])
+                                                      band,
+                                                      pixels_x=np.array([0, nx-1, 0]),
+                                                      pixels_y=np.array([0, 0, ny-1]))
         local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
         distance_along_x = math.sqrt((local_lons[1] - local_lons[0]) ** 2 + (local_lats[1] - local_lats[0]) ** 2)
         distance_along_y = math.sqrt((local_lons[2] - local_lons[0]) ** 2 + (local_lats[2] - local_lats[0]) ** 2)
-- 
2.43.0


From 84fe701a46d2b795e6c124c1ff7e22f25d504c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:23 +0000
Subject: [PATCH 56/65] fix: whole-image orthos measure the extent in metres

---
 resippy/photogrammetry/ortho_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 390ecc2..44f92d6 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -17,7 +17,7 @@ from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffIm
 from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
 from resippy.photogrammetry.dem.abstract_dem import AbstractDem
 from resippy.photogrammetry import crs_defs as crs_defs
-from resippy.utils.photogrammetry_utils import create_ground_grid, world_poly_to_geo_t
+from resippy.utils.photogrammetry_utils import create_ground_grid, reproject_geometry, world_poly_to_geo_t
 from resippy.utils import proj_utils
 from pyproj import transform
 from resippy.photogrammetry.dem.dem_factory import DemFactory
@@ -139,8 +139,9 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         gsd_y = distance_along_y / ny
         gsd_meters = (gsd_x + gsd_y) / 2.0
 
-    ortho_x_dist = np.abs(extent.bounds[2] - extent.bounds[0])
-    ortho_y_dist = np.abs(extent.bounds[3] - extent.bounds[1])
+    local_extent = reproject_geometry(extent, overhead_image.pointcalc.get_projection(), local_proj)
+    ortho_x_dist = np.abs(local_extent.bounds[2] - local_extent.bounds[0])
+    ortho_y_dist = np.abs(local_extent.bounds[3] - local_extent.bounds[1])
 
     ortho_nx = int(ortho_x_dist / gsd_meters)
     ortho_ny = int(ortho_y_dist / gsd_meters)
-- 
2.43.0


From a9e3e25cf1bc6cc1e26991ef6767a6f080f1679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:23 +0000
Subject: [PATCH 57/65] fix: whole-image orthos cover the image in the
 projection asked for

---
 resippy/photogrammetry/ortho_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 44f92d6..b8a05ef 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -148,6 +148,8 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
 
     if output_proj is None:
         output_proj = overhead_image.pointcalc.get_projection()
+    elif output_proj.srs != overhead_image.pointcalc.get_projection().srs:
+        extent = reproject_geometry(extent, overhead_image.pointcalc.get_projection(), output_proj)
     return create_ortho_gtiff_image_world_to_sensor(overhead_image,
                                                     ortho_nx,
                                                     ortho_ny,
-- 
2.43.0


From 59330c6ed8fac8c37ee1e2512d1af03382b57f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 58/65] fix: vertical datum conversion warps to the compound of
 the horizontal and vertical datum

---
 .../earth_overhead/geotiff/geotiff_image.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 3405f7f..f68de96 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -170,11 +170,13 @@ class GeotiffImage(AbstractEarthOverheadImage):
         proj4_srs = geotiff_image.get_point_calculator().get_projection().srs
         srs = osr.SpatialReference()
         srs.ImportFromProj4(proj4_srs)
-        srs.AutoIdentifyEPSG()
-        dst_epsg = 'EPSG:' + str(srs.GetAuthorityCode(None)) + "+" + str(datum_epsg_code)
+        vertical_srs = osr.SpatialReference()
+        vertical_srs.ImportFromEPSG(int(datum_epsg_code))
+        dst_srs = osr.SpatialReference()
+        dst_srs.SetCompoundCS("", srs, vertical_srs)
 
-        ops = gdal.WarpOptions(dstSRS=dst_epsg)
-        return gdalwarp_geoTiffImage(geotiff_image, dst_fname, ops)
+        ops = gdal.WarpOptions(dstSRS=dst_srs.ExportToWkt())
+        return GeotiffImage.gdalwarp_geotiff_image(geotiff_image, ops, dst_fname)
 
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
         # keep this import statement in here until all OS / pip related issues with installing gdal2tiles are resolved.
-- 
2.43.0


From 8118ec5d65b75ca741e8484707d085da77a6c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:11 +0000
Subject: [PATCH 59/65] fix: images in memory can be warped without naming a
 file, each to its own

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index f68de96..b8c107f 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -1,5 +1,7 @@
 from __future__ import division
 
+from uuid import uuid4
+
 import gdal
 import numpy as np
 import osr
@@ -153,7 +155,8 @@ class GeotiffImage(AbstractEarthOverheadImage):
             src_dataset = image.get_gdal_mem_datset()
 
         if dst_fname is None:
-            dst_fname="/vsimem/tmp_gdalwarp_geotiff.vrt"
+            # a virtual raster can't refer to an image in memory, and each image needs a file of its own
+            dst_fname = "/vsimem/tmp_gdalwarp_geotiff_" + uuid4().hex + ".tif"
 
         dst_dataset = gdal.Warp(dst_fname, src_dataset, options=warp_ops)
         src_dataset = None
-- 
2.43.0


From e92c4511244435418096e8ff4f6da752cf5129a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:11 +0000
Subject: [PATCH 60/65] fix: map tiles are made from the image they are asked
 of

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index b8c107f..5a092cd 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -186,8 +186,8 @@ class GeotiffImage(AbstractEarthOverheadImage):
         import gdal2tiles
         tmp_filename = "/tmp/tmp_gdalwarp.tif"
         gdal_warp_options = gdal.WarpOptions(dstSRS="EPSG:3857")
-        mem_fname = "/vsimem/tmp_gdalwarp_geotiff.vrt"
-        gtiff_3857 = self.gdalwarp_geotiff_image(gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
+        mem_fname = "/vsimem/tmp_gdalwarp_geotiff.tif"
+        gtiff_3857 = self.gdalwarp_geotiff_image(self, gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
         gdal2tiles.generate_tiles(mem_fname, out_dir)
 
     def close_image(self):  # type: (...) -> None
-- 
2.43.0


From f030557334814857db6b2060af491f6f1a956913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 61/65] fix: files are found in folders whose name holds a glob
 character

---
 resippy/utils/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 97609ea..bcdc13f 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -33,7 +33,7 @@ def get_all_files_in_dir(directory,                     # type: str
 
     files = []
     for extension in sanitized_extensions:
-        fnames = glob.glob(directory + os.path.sep + "*." + extension)
+        fnames = glob.glob(glob.escape(directory) + os.path.sep + "*." + extension)
         files = files + fnames
     if return_fullpaths:
         return files
-- 
2.43.0


From 7638aa5ce59b48c110fc9a761649c4c0314c5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 62/65] fix: every file is listed when no extension is asked
 for, and extensions may contain dots

---
 resippy/utils/file_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index bcdc13f..0d37fad 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -23,17 +23,18 @@ def get_all_files_in_dir(directory,                     # type: str
     sanitized_extensions = []
     if type(extensions) == (type([])):
         for extension in extensions:
-            sanitized_extensions.append(extension.replace(".", "").replace("*", ""))
+            sanitized_extensions.append(extension.replace("*", "").lstrip("."))
     elif type(extensions) == (type("")):
-        sanitized_extensions.append(extensions.replace(".", "").replace("*", ""))
+        sanitized_extensions.append(extensions.replace("*", "").lstrip("."))
     elif extensions is None:
-        sanitized_extensions.append("*")
+        sanitized_extensions.append("")
     else:
         raise TypeError("extensions should either be a string or list of strings")
 
     files = []
     for extension in sanitized_extensions:
-        fnames = glob.glob(glob.escape(directory) + os.path.sep + "*." + extension)
+        pattern = "*." + extension if extension else "*"
+        fnames = glob.glob(glob.escape(directory) + os.path.sep + pattern)
         files = files + fnames
     if return_fullpaths:
         return files
-- 
2.43.0


From 76049484b1cd61d0e8e92dc3556d9f0223baae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 63/65] fix: file listings hold no folders and name each file
 once

---
 resippy/utils/file_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 0d37fad..ae60e75 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -35,7 +35,7 @@ def get_all_files_in_dir(directory,                     # type: str
     for extension in sanitized_extensions:
         pattern = "*." + extension if extension else "*"
         fnames = glob.glob(glob.escape(directory) + os.path.sep + pattern)
-        files = files + fnames
+        files = files + [f for f in fnames if os.path.isfile(f) and f not in files]
     if return_fullpaths:
         return files
     else:
@@ -57,7 +57,7 @@ def get_files_in_dir_that_start_with(directory,                 # type: str
     filtered_basenames = []
     for starts_with_text in starts_with:
         for basename in all_basenames:
-            if basename.startswith(starts_with_text):
+            if basename.startswith(starts_with_text) and basename not in filtered_basenames:
                 filtered_basenames.append(basename)
     if not return_fullpaths:
         return filtered_basenames
-- 
2.43.0


From 63e35a881bfa3793e0b0c6923ddadf270b795e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 64/65] fix: blank lines at the end of Pix4D parameter files
 hold no camera

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py    | 2 +-
 resippy/utils/pix4d_utils.py                                | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 75bec1c..ed2ad74 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -180,7 +180,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         external_params = {}
         with open(calibrated_external_params_file, 'r') as f:
             lines = f.readlines()
-        cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines][1:]
+        cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines if x.strip()][1:]
         for file_params in cleaned_up_lines:
             fname, x, y, z, omega, phi, kappa = file_params.split(" ")
             external_params[fname] = [float(x), float(y), float(z), float(omega), float(phi), float(kappa)]
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index ea57875..77d72a0 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -16,6 +16,8 @@ def read_p_matrices(pmatrix_txt_file    # type: str
         lines = f.readlines()
     for line in lines:
         line_no_linesep = string_utils.remove_newlines(line.strip())
+        if not line_no_linesep:
+            continue
         line_fields = line_no_linesep.split(' ')
         params = np.asarray(line_fields[1:], dtype=float)
         fname = line_fields[0]
@@ -43,7 +45,7 @@ def read_calibrated_camera_parameters(calibrated_params_file    # type: str
     with open(calibrated_params_file, 'r') as f:
         lines = f.readlines()
     cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines]
-    params = cleaned_up_lines[8:]
+    params = [x for x in cleaned_up_lines[8:] if x.strip()]
     per_file_params = [params[x:x + 10] for x in range(0, len(params), 10)]
     for file_params in per_file_params:
         fname, image_w, image_h = file_params[0].split(" ")
@@ -81,7 +83,7 @@ def read_calibrated_external_camera_parameters(calibrated_external_params_file
     external_params = {}
     with open(calibrated_external_params_file, 'r') as f:
         lines = f.readlines()
-    cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines][1:]
+    cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines if x.strip()][1:]
     for file_params in cleaned_up_lines:
         fname, x, y, z, omega, phi, kappa = file_params.split(" ")
         external_params[fname] = [float(x), float(y), float(z), float(omega), float(phi), float(kappa)]
-- 
2.43.0


From 5210168da0b7fde6a95a4beca18c85ff1b9b8687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 65/65] fix: principal components leave the image cube as it
 was

---
 resippy/spectral/spectral_image_processing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index f8b931f..1f6aff6 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -22,7 +22,7 @@ def compute_image_cube_pca(spectral_image,      # type: ndarray
     #                      copy=False)
     pca = PCA(n_components=n_components,
                          whiten=whiten,
-                         copy=False)
+                         copy=True)
 
     xformed = pca.fit_transform(prepped_cube)
     nsamp, ncomp = xformed.shape
-- 
2.43.0

