From 237c9a60ab949d2c90f32c4fe2d11ef89d177ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:56 +0000
Subject: [PATCH 01/25] fix: Camera.remap() and FrameCamera.read() with default
 nodata=None

The nodata lookup was keyed by numpy dtype object rather than dtype name, so the
documented default raised KeyError.
---
 orthority/camera.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index dee13a9..0ffe7f4 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -363,7 +363,7 @@ class Camera(ABC):
         if not np.issubdtype(z.dtype, np.floating):
             raise ValueError("'z' should have 'float64' or 'float32' data type.")
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
 
         # find (j, i) image pixel coords corresponding to (x, y, z) world coords
         ji = self.world_to_pixel(np.array((x.reshape(-1), y.reshape(-1), z.reshape(-1))))
@@ -923,7 +923,7 @@ class FrameCamera(Camera):
         # does not support 3D images with >4 bands, and is slower on a re-ordered 3D image than
         # in a loop over bands)
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
         und_array = np.full(im_array.shape, dtype=im_array.dtype, fill_value=nodata)
 
         for bi in range(im_array.shape[0]):
@@ -1052,7 +1052,7 @@ class FrameCamera(Camera):
 
         if not self._distort:
             if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
+                nodata = common._nodata_vals[str(image.dtype)]
             image = self._undistort_im(image, nodata=nodata, interp=interp)
         return image
 
@@ -1097,6 +1097,8 @@ class FrameCamera(Camera):
               bands.  Same data type as ``im_array``.
             - Nodata mask of the remapped image, as a M-by-N 2D boolean array.
         """
+        if nodata is None and str(image.dtype) in common._nodata_vals:
+            nodata = common._nodata_vals[str(image.dtype)]
         remap, mask = super().remap(image, x, y, z, nodata=nodata, interp=interp)
 
         # remove blurring with nodata pixels when necessary
@@ -1108,9 +1110,6 @@ class FrameCamera(Camera):
         ):
             kernel = np.ones(kernel_size[::-1], np.uint8)
             mask = cv2.dilate(mask.view(np.uint8), kernel).view(bool)
-
-            if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
             remap[:, mask] = nodata
 
         return remap, mask
-- 
2.43.0


From 9cea04a702567541bca60fdb8b2ec059823f6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:56 +0000
Subject: [PATCH 02/25] fix: Camera.world_boundary() with a string interp and
 surface z

---
 orthority/camera.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 0ffe7f4..02f3034 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -153,7 +153,13 @@ class Camera(ABC):
             # nan outside its bounds and for already masked / nan pixels)
             zsurf_ji = np.array(inv_transform * ray_xyz[:2]).astype('float32', copy=False)
             zsurf_z = np.full((zsurf_ji.shape[1],), dtype=z.dtype, fill_value=float('nan'))
-            cv2.remap(z, *zsurf_ji, interp.to_cv(), dst=zsurf_z, borderMode=cv2.BORDER_TRANSPARENT)
+            cv2.remap(
+                z,
+                *zsurf_ji,
+                Interp(interp).to_cv(),
+                dst=zsurf_z,
+                borderMode=cv2.BORDER_TRANSPARENT,
+            )
 
             # store the first ray-z intersection point if it exists, otherwise the z_min point
             zsurf_min_xyz = ray_xyz[:, -1]
-- 
2.43.0


From a7324fce937ccd0c342592b4ba7219212f7d1155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:56 +0000
Subject: [PATCH 03/25] fix: NaN fisheye pixel coordinates on the optical axis

---
 orthority/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 02f3034..fe6492f 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -1480,7 +1480,8 @@ class FisheyeCamera(FrameCamera):
         else:
             # opencv 4 parameter version
             theta_d = theta * (1.0 + theta2 * (k1 + theta2 * (k2 + theta2 * (k3 + theta2 * k4))))
-        xyz_[:2] *= theta_d / r
+        # (theta_d / r -> 1 as r -> 0 at the principal point)
+        xyz_[:2] *= np.divide(theta_d, r, out=np.ones_like(r), where=r != 0)
 
         # transform from distorted camera to pixel coordinates
         ji = self._K.dot(xyz_)[:2]
-- 
2.43.0


From 1ccd541c12b6f44a7ff9466e45e4bf1f3651453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:56 +0000
Subject: [PATCH 04/25] fix: RPC and GCP camera pixel_to_world_z() with single
 element or integer z arrays

---
 orthority/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index fe6492f..d69a2e4 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -500,7 +500,7 @@ class RpcCamera(Camera):
 
         # project from pixel to geographic / RPC coordinates, removing and replacing nans around
         # the .xy call (which raises warnings on nans and converts to inf)
-        z = z * np.ones(ji.shape[1]) if np.isscalar(z) else z.copy()
+        z = z * np.ones(ji.shape[1]) if np.size(z) == 1 else z.astype('float64')
         ji = ji * np.ones((2, z.shape[0])) if ji.shape[1] == 1 else ji
         mask = ~(np.any(np.isnan(ji), axis=0) | np.isnan(z))
         xy = np.full(ji.shape, fill_value=np.nan)
@@ -550,7 +550,7 @@ class GcpCamera(Camera):  # pragma: no cover
 
         # project from pixel to GCP coordinates, removing and replacing nans around the .xy call
         # (which raises warnings on nans and converts to inf)
-        z = z * np.ones(ji.shape[1]) if np.isscalar(z) else z.copy()
+        z = z * np.ones(ji.shape[1]) if np.size(z) == 1 else z.astype('float64')
         ji = ji * np.ones((2, z.shape[0])) if ji.shape[1] == 1 else ji
         mask = ~(np.any(np.isnan(ji), axis=0) | np.isnan(z))
         xy = np.full(ji.shape, fill_value=np.nan)
-- 
2.43.0


From bf21a6ca15b7c2a10861b82505ae33beff938c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:56 +0000
Subject: [PATCH 05/25] fix: scale of normalised focal length for portrait
 images

focal_len is documented as normalised by max(sensor width & height) when
sensor_size is not given, but was scaled by the image width.
---
 orthority/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index d69a2e4..abc4c2c 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -681,10 +681,10 @@ class FrameCamera(Camera):
         if sensor_size is None:
             warnings.warn(
                 "'sensor_size' not specified, assuming square pixels and 'focal_len' normalised by "
-                "sensor width.",
+                "the maximum of sensor width & height.",
                 category=OrthorityWarning,
             )
-            sigma_xy = (focal_len * im_size[0]) * np.ones(2)
+            sigma_xy = (focal_len * im_size.max()) * np.ones(2)
         else:
             sensor_size = np.array(sensor_size)
             sigma_xy = focal_len * im_size / sensor_size
-- 
2.43.0


From c151c93078154b41de4d16745074dca3bd25714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:05 +0000
Subject: [PATCH 06/25] fix: stale RpcCameras.get() camera after refining stem
 keyed parameters

---
 orthority/factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 6eb9fa6..865882a 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -354,7 +354,10 @@ class RpcCameras(Cameras):
             gcps = self._gcp_dict.get(filename.name, self._gcp_dict.get(filename.stem, None))
 
             if gcps:
-                self._cameras.pop(filename.name, None)  # force camera recreation
+                # force camera recreation (filename may be a stem, while cameras are keyed by name)
+                for name in [*self._cameras]:
+                    if filename.name in (name, Path(name).stem):
+                        self._cameras.pop(name)
                 rpc_param['rpc'] = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
             else:
                 warnings.warn(
-- 
2.43.0


From 1ed16b7cc891d32d46452549e1554919cb29d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:05 +0000
Subject: [PATCH 07/25] fix: RpcCameras.refine() altering the caller's RPC
 parameter dictionary

---
 orthority/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 865882a..e0707b0 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -269,7 +269,8 @@ class RpcCameras(Cameras):
         if not isinstance(rpc_param, dict):
             self._rpc_param_dict = param_io.read_oty_rpc_param(rpc_param)
         else:
-            self._rpc_param_dict = rpc_param
+            # copy so that refine() does not alter the caller's parameters
+            self._rpc_param_dict = {k: dict(v) for k, v in rpc_param.items()}
 
         self._cam_kwargs = cam_kwargs or {}
         self._cameras = {}
-- 
2.43.0


From e0e5ca8879836af54f410a5b4cf694aec848f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:05 +0000
Subject: [PATCH 08/25] fix: FrameCameras.from_images() altering the caller's
 io_kwargs

The auto-determined CRS was written into the caller's dictionary, and so used for
any following images the dictionary was passed with.
---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index e0707b0..c57b38e 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -131,7 +131,7 @@ class FrameCameras(Cameras):
             :class:`~orthority.camera.FrameCamera` class. Should exclude interior and exterior
             parameters which are passed internally.
         """
-        io_kwargs = io_kwargs or {}
+        io_kwargs = dict(io_kwargs or {})
         reader = param_io.ExifReader(files, **io_kwargs)
         int_param_dict = reader.read_int_param()
         ext_param_dict = reader.read_ext_param()
-- 
2.43.0


From bd6da406d36a3c2b8161f731788e87d2f5f0a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:05 +0000
Subject: [PATCH 09/25] fix: CRS of the first source image being used for
 following source images

---
 orthority/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 946c327..200be36 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -353,8 +353,8 @@ def _ortho(
 
             with src_ctx as src_im:
                 # finalise and validate world / ortho crs
-                crs = crs or src_im.crs
-                if not crs:
+                src_crs = crs or src_im.crs
+                if not src_crs:
                     raise click.MissingParameter(param_hint="'-c' / '--crs'", param_type='option')
 
                 # orthorectify
@@ -366,7 +366,7 @@ def _ortho(
                     out_dir, f'{src_file_path.stem}_ORTHO.tif', mode='wb'
                 )
                 try:
-                    ortho = Ortho(src_im, dem_im, camera, crs, dem_band=dem_band)
+                    ortho = Ortho(src_im, dem_im, camera, src_crs, dem_band=dem_band)
                     ortho.process(ortho_ofile, overwrite=overwrite, progress=tqdm_kwargs, **kwargs)
                 except (FileExistsError, OrthorityError) as ex:
                     raise click.UsageError(str(ex))
-- 
2.43.0


From 19ada595568359181ea61e66c6495cf6185b85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:06 +0000
Subject: [PATCH 10/25] fix: fit_frame_exterior() treating fisheye distortion
 as Brown distortion

---
 orthority/fit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orthority/fit.py b/orthority/fit.py
index 8596127..2085170 100644
--- a/orthority/fit.py
+++ b/orthority/fit.py
@@ -346,6 +346,7 @@ def fit_frame_exterior(
     dist_names = _frame_dist_params[int_param['cam_type']]
     dist_param = [int_param.get(dn, 0.0) for dn in dist_names]
     dist_param = np.array(dist_param) if dist_param else None
+    pnp_dist_param = dist_param if int_param['cam_type'] != CameraType.fisheye else None
 
     # convert GCPs to OpenCV compatible lists of arrays
     jis, xyzs, ref_xyz = _gcps_to_cv_coords(gcp_dict, crs=crs)
@@ -353,7 +354,10 @@ def fit_frame_exterior(
     # fit exterior parameters (SOLVEPNP_SQPNP is globally optimal so does not need further refining)
     ext_param_dict = {}
     for filename, xyz, ji in zip(gcp_dict.keys(), xyzs, jis):
-        _, r, t = cv2.solvePnP(xyz, ji, K, dist_param, flags=cv2.SOLVEPNP_SQPNP)
+        if int_param['cam_type'] == CameraType.fisheye:
+            # cv2.solvePnP() does not support the fisheye model, so remove distortion first
+            ji = cv2.fisheye.undistortPoints(ji[None, :], K, dist_param, None, K)[0]
+        _, r, t = cv2.solvePnP(xyz, ji, K, pnp_dist_param, flags=cv2.SOLVEPNP_SQPNP)
         xyz_, opk = param_io._cv_ext_to_oty_ext(t, r, ref_xyz=ref_xyz)
         ext_param_dict[filename] = dict(xyz=xyz_, opk=opk, camera=cam_id)
 
-- 
2.43.0


From f2ec354b87e3b3c1e5c8809a5f7bc0ddecac757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:33 +0000
Subject: [PATCH 11/25] fix: raise ParamError for malformed Orthority interior
 parameter files

---
 orthority/param_io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7c1497a..08ef3b6 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -225,9 +225,12 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         for req_key in ['type', 'im_size', 'focal_len']:
             if req_key not in yaml_param:
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
+        for key in ['im_size', 'sensor_size']:
+            if key in yaml_param and not isinstance(yaml_param[key], list):
+                raise ParamError(f"'{key}' should be a list for camera '{cam_id}'.")
 
         # convert type -> cam_type
-        cam_type = yaml_param.pop('type').lower()
+        cam_type = str(yaml_param.pop('type')).lower()
         if cam_type not in CameraType.__members__ or cam_type == 'rpc':
             raise ParamError(f"Unsupported frame camera type '{cam_type}'.")
         int_param = dict(cam_type=CameraType(cam_type))
@@ -251,7 +254,7 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         return int_param
 
     # warn if in original simple-ortho format
-    if 'camera' in yaml_dict:
+    if isinstance(yaml_dict, dict) and 'camera' in yaml_dict:
         warnings.warn(
             "Support for the 'config.yaml' format is deprecated and will be removed in future. "
             "Please switch to the Orthority interior parameter format.",
@@ -259,6 +262,9 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         )
         yaml_dict = yaml_dict['camera']
 
+    if not isinstance(yaml_dict, dict) or len(yaml_dict) == 0:
+        raise ParamError(f"Could not parse '{filename}': no camera parameters found.")
+
     # convert to nested dict if in flat / simple-ortho format
     first_value = next(iter(yaml_dict.values()))
     if not isinstance(first_value, dict):
-- 
2.43.0


From 9a9b5688248d2307cf7ac2bbe18689ceadf3aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:33 +0000
Subject: [PATCH 12/25] fix: raise ParamError for malformed OpenSfM interior
 parameter files

---
 orthority/param_io.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 08ef3b6..5305a51 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -81,7 +81,7 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
 
         # set 'cam_type' from 'projection_type'
-        proj_type = json_param.pop('projection_type').lower()
+        proj_type = str(json_param.pop('projection_type')).lower()
         try:
             int_param['cam_type'] = CameraType.from_odm(proj_type)
         except ValueError:
@@ -308,7 +308,12 @@ def read_osfm_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str,
             raise ParamError(f"Could not load '{filename}': {ex!s}") from ex
 
     # extract cameras section if file is an OpenSfM reconstruction.json file
-    if isinstance(json_dict, list) and len(json_dict) == 1 and 'cameras' in json_dict[0]:
+    if (
+        isinstance(json_dict, list)
+        and len(json_dict) == 1
+        and isinstance(json_dict[0], dict)
+        and 'cameras' in json_dict[0]
+    ):
         json_dict = json_dict[0]['cameras']
 
     try:
-- 
2.43.0


From 9a6b1c56f13adcf2343c4533e16c7d74cf250b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:33 +0000
Subject: [PATCH 13/25] fix: raise ParamError for malformed CSV exterior
 parameter files

---
 orthority/param_io.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 5305a51..f1bf9dd 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1054,11 +1054,17 @@ class CsvReader(FrameReader):
         # auto-detect dialect if not provided
         sniffer = Sniffer()
         if not dialect:
-            dialect = sniffer.sniff(sample, delimiters=',;: \t')
+            try:
+                dialect = sniffer.sniff(sample, delimiters=',;: \t')
+            except csv.Error as ex:
+                raise ParamError(str(ex)) from ex
             dialect.skipinitialspace = True
 
         # find field names and parse to determine format
-        has_header = sniffer.has_header(sample)
+        try:
+            has_header = sniffer.has_header(sample)
+        except csv.Error as ex:
+            raise ParamError(str(ex)) from ex
         if not fieldnames:
             if has_header:  # read field names from header
                 fieldnames = next(iter(csv.reader(sample.splitlines(), dialect=dialect)))
@@ -1069,6 +1075,14 @@ class CsvReader(FrameReader):
 
         return fieldnames, dialect, has_header, csv_fmt
 
+    def _parse_row(self, row: dict[str, str]) -> dict[str, Any]:
+        """Convert the recognised field values of a CSV row dictionary to their types."""
+        try:
+            return {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+        except (TypeError, ValueError) as ex:
+            filename = common.get_filename(self._file)
+            raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
+
     def _find_lla_rpy_crs(self) -> CRS:
         """Return a UTM CRS covering the mean of the camera positions in a
         :attr:`~CsvFormat.lla_rpy` format file.
@@ -1079,10 +1093,13 @@ class CsvReader(FrameReader):
         if self._has_header:
             _ = next(iter(reader))
         for row in reader:
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+            row = self._parse_row(row)
             latlon = (row['latitude'], row['longitude'])
             latlons.append(latlon)
 
+        if len(latlons) == 0:
+            filename = common.get_filename(self._file)
+            raise ParamError(f"Could not find any positions in '{filename}'.")
         mean_latlon = np.array(latlons).mean(axis=0)
         return common.utm_crs_from_latlon(*mean_latlon)
 
@@ -1161,7 +1178,7 @@ class CsvReader(FrameReader):
 
         for row in reader:
             filename = Path(row['filename']).name
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+            row = self._parse_row(row)
             xyz, opk = self._convert(row, radians=self._radians)
             ext_param_dict[filename] = dict(xyz=xyz, opk=opk, camera=row.get('camera', None))
 
-- 
2.43.0


From dde65904d984fc5a01ca708d16b9a60796e9146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:48 +0000
Subject: [PATCH 14/25] fix: remove nodata blending at tile and ortho edges
 with distort=False

---
 orthority/ortho.py | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index e3be0cf..930c6b1 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -352,6 +352,8 @@ class Ortho:
         init_xgrid: np.ndarray,
         init_ygrid: np.ndarray,
         interp: Interp,
+        kernel_size: np.ndarray,
+        pad: np.ndarray,
         write_mask: bool,
     ) -> None:
         """Thread safe method to map the source image to an ortho tile.  Returns the tile array
@@ -359,27 +361,25 @@ class Ortho:
         """
         dtype_nodata = common._nodata_vals[ortho_im.profile['dtype']]
 
+        # padded tile size
+        pad_width, pad_height = np.array((tile_win.width, tile_win.height)) + 2 * pad
+
         # offset init grids to tile_win
         tile_transform = rio.windows.transform(tile_win, ortho_im.profile['transform'])
-        tile_xgrid = init_xgrid[: tile_win.height, : tile_win.width] + (
+        tile_xgrid = init_xgrid[:pad_height, :pad_width] + (
             tile_transform.xoff - ortho_im.profile['transform'].xoff
         )
-        tile_ygrid = init_ygrid[: tile_win.height, : tile_win.width] + (
+        tile_ygrid = init_ygrid[:pad_height, :pad_width] + (
             tile_transform.yoff - ortho_im.profile['transform'].yoff
         )
 
-        # extract tile_win from dem_array (will be nan outside dem valid area or outside original
-        # dem bounds)
+        # extract padded tile_win from dem_array (will be nan outside dem valid area or outside
+        # original dem bounds)
         tile_zgrid = dem_array[
-            tile_win.row_off : (tile_win.row_off + tile_win.height),
-            tile_win.col_off : (tile_win.col_off + tile_win.width),
+            tile_win.row_off : (tile_win.row_off + pad_height),
+            tile_win.col_off : (tile_win.col_off + pad_width),
         ]
 
-        # find mask dilation kernel size for remove blurring with nodata (when needed)
-        src_res = np.array((self._gsd, self._gsd))
-        ortho_res = np.abs((tile_transform.a, tile_transform.e))
-        kernel_size = np.maximum(np.ceil(5 * src_res / ortho_res).astype('int'), (3, 3))
-
         # remap the source to ortho
         tile_array, tile_mask = self._camera.remap(
             src_array,
@@ -391,6 +391,11 @@ class Ortho:
             kernel_size=kernel_size,
         )
 
+        # remove padding
+        slices = [slice(p, p + n) for p, n in zip(pad[::-1], (tile_win.height, tile_win.width))]
+        tile_array = tile_array[:, slices[0], slices[1]]
+        tile_mask = tile_mask[slices[0], slices[1]]
+
         # write tile_array to the ortho image
         with self._write_lock:
             ortho_im.write(tile_array, indexes, window=tile_win)
@@ -411,6 +416,17 @@ class Ortho:
         """Map the source to ortho image by interpolation, given open source and ortho datasets, DEM
         array in the ortho CRS and pixel grid, and configuration parameters.
         """
+        # find mask dilation kernel size for remove blurring with nodata (when needed)
+        src_res = np.array((self._gsd, self._gsd))
+        ortho_res = np.abs((ortho_im.profile['transform'].a, ortho_im.profile['transform'].e))
+        kernel_size = np.maximum(np.ceil(5 * src_res / ortho_res).astype('int'), (3, 3))
+
+        # pad tiles by the kernel when it is used, so that invalid pixels outside the tile / ortho
+        # are included in the mask dilation
+        undistort = isinstance(self._camera, FrameCamera) and not self._camera.distort
+        pad = kernel_size if undistort else np.zeros_like(kernel_size)
+        dem_array = np.pad(dem_array, [[pad[1]] * 2, [pad[0]] * 2], constant_values=float('nan'))
+
         # Initialise an (x, y) pixel grid for the first tile here, and offset for remaining tiles
         # in _remap_tile (requires N-up transform).
         # float64 precision is needed for the (x, y) ortho grids in world coordinates for e.g. high
@@ -419,8 +435,8 @@ class Ortho:
         # integer pixel coords refer to pixel centers, so the (x, y) coords are offset by half a
         # pixel to account for this.
         block_win = next(common.block_windows(ortho_im))
-        j_range = np.arange(0, block_win.width)
-        i_range = np.arange(0, block_win.height)
+        j_range = np.arange(-pad[0], block_win.width + pad[0])
+        i_range = np.arange(-pad[1], block_win.height + pad[1])
         init_jgrid, init_igrid = np.meshgrid(j_range, i_range, indexing='xy')
         center_transform = ortho_im.profile['transform'] * rio.Affine.translation(0.5, 0.5)
         init_xgrid, init_ygrid = center_transform * [init_jgrid, init_igrid]
@@ -466,6 +482,8 @@ class Ortho:
                         init_xgrid,
                         init_ygrid,
                         interp,
+                        kernel_size,
+                        pad,
                         write_mask,
                     )
                     for tile_win in tile_wins
-- 
2.43.0


From 28ebfa6233d2a2899ad5e68c434dc3082c79f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:39 +0000
Subject: [PATCH 15/25] fix: DEM window for terrain below sea level

---
 orthority/ortho.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 930c6b1..87abca4 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -79,7 +79,9 @@ class Ortho:
     # the WGS84 ellipsoid (meters)
     _egm_minmax = [-106.71, 82.28]
 
-    # Maximum possible ellipsoidal height i.e. approx. that of Everest (meters)
+    # Minimum and maximum possible altitude i.e. approx. that of the Dead Sea shore and Everest
+    # (meters)
+    _z_min = -440.0
     _z_max = 8850.0
 
     def __init__(
@@ -171,7 +173,8 @@ class Ortho:
                 return common.expand_window_to_grid(dem_win)
 
             # get a dem window containing the ortho bounds at min & max possible altitude
-            zs = np.array([self._egm_minmax[0], self._z_max + self._egm_minmax[1]]) * z_scale
+            zs = np.array([self._z_min, self._z_max]) + self._egm_minmax
+            zs *= z_scale
             dem_win = get_win_at_zs(zs)
             # read the window from the dem
             dem_array = dem_im.read(dem_band, window=dem_win, masked=True)
-- 
2.43.0


From 2999fdb1a6b5d88804a848bd837e19983d62a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:42 +0000
Subject: [PATCH 16/25] fix: vertical datum shift of DEMs with different height
 units to the world CRS

---
 orthority/ortho.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 87abca4..2e840c6 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -288,6 +288,7 @@ class Ortho:
             init_dest_nodata=True,
             apply_vertical_shift=True,
             mult_factor_vertical_shift=z_scale,
+            mult_factor_vertical_shift_pipeline=z_scale,
             num_threads=os.cpu_count(),
         )
         return dem_array.squeeze(), dem_transform
-- 
2.43.0


From c58258d181a59fa1415cdf7bb46cfd1e7556224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:32 +0000
Subject: [PATCH 17/25] fix: mask NaN pixels in DEMs without a nodata value

---
 orthority/ortho.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 2e840c6..db358ef 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -178,6 +178,8 @@ class Ortho:
             dem_win = get_win_at_zs(zs)
             # read the window from the dem
             dem_array = dem_im.read(dem_band, window=dem_win, masked=True)
+            # mask any nan pixels that are not masked by the dem nodata
+            dem_array = np.ma.masked_invalid(dem_array, copy=False)
             dem_array_win = dem_win
 
             # reduce the dem window to contain the ortho bounds at min & max dem altitude,
-- 
2.43.0


From b3d1320454ee4da461c72340dc0d2f249479abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:06 +0000
Subject: [PATCH 18/25] fix: Gram-Schmidt coefficients of components without
 variance (zero weights, duplicate bands)

---
 orthority/pan_sharp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index acd387b..0aa17de 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -373,8 +373,10 @@ class PanSharpen:
                 for l in range(k + 1):
                     num = a[l].dot(cov[k])
                     den = (a[l].reshape(-1, 1).dot(a[l].reshape(1, -1)) * cov).sum()
-                    # the 'if' below avoids dividing by zero with canonical weight vectors
-                    coeffs[k][l] = num / den if np.any(a[l] != 0) else 0
+                    # the 'if' below avoids dividing by (nearly) zero when a component has no
+                    # variance of its own e.g. with zero weights, or duplicate or constant bands
+                    min_den = 1e-10 * cov[l - 1, l - 1] if l > 0 else 0
+                    coeffs[k][l] = num / den if den > min_den else 0
 
             return coeffs
 
-- 
2.43.0


From af145326cf30ca181f063914aa275fed2583f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:30 +0000
Subject: [PATCH 19/25] fix: refuse multispectral to pan weights with no
 positive value

---
 orthority/pan_sharp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 0aa17de..e06563b 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -323,7 +323,7 @@ class PanSharpen:
             if weights is None:
                 # find the LS solution for the weights as described in section 2.2 & eq 6
                 weights = np.linalg.lstsq(cov[1:, 1:], cov[0, 1:].reshape(-1, 1), rcond=None)[0]
-                weights = weights.squeeze()
+                weights = weights.flatten()
 
                 # redo the LS without negatively weighted bands if there are any
                 if np.any(weights < 0):
@@ -353,6 +353,10 @@ class PanSharpen:
                     category=OrthorityWarning,
                 )
                 weights = weights.clip(0, None)
+            if not weights.sum() > 0:
+                raise OrthorityError(
+                    'Multispectral to pan weights should have at least one value greater than 0.'
+                )
             return weights / weights.sum()
 
         def get_gs_coeffs(cov: np.ndarray, weights: np.ndarray) -> list[np.ndarray]:
-- 
2.43.0


From 1c961b3b55a84568775e0e4291224e734e2a4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:15 +0000
Subject: [PATCH 20/25] fix: keep vertical units of the world CRS when writing
 exterior parameters

CRS.to_string() matches e.g. '+proj=utm ... +vunits=ft' to the EPSG code of the
horizontal CRS, so exported exterior parameters were read back in another CRS.
---
 orthority/param_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index f1bf9dd..ec75720 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -650,7 +650,10 @@ def write_ext_param(
         feat_dict = dict(type='Feature', properties=props_dict, geometry=geom_dict)
         feat_list.append(feat_dict)
 
-    json_dict = dict(type='FeatureCollection', world_crs=crs.to_string(), features=feat_list)
+    # use WKT if the (EPSG) string does not represent the whole CRS (e.g. loses its vertical units)
+    crs_str = crs.to_string()
+    crs_str = crs_str if CRS.from_string(crs_str) == crs else crs.to_wkt()
+    json_dict = dict(type='FeatureCollection', world_crs=crs_str, features=feat_list)
 
     with common.Open(file, 'wt', overwrite=overwrite) as f:
         json.dump(json_dict, f, indent=4)
-- 
2.43.0


From 593e68b741d5ed826f3178feb007f2edff64c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:14 +0000
Subject: [PATCH 21/25] fix: read a CSV exterior parameter file with one row
 and no header

csv.Sniffer.has_header() is always true for one row, so the only row was taken
as header: the file was refused, or gave no parameters with 'fieldnames'.
---
 orthority/param_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index ec75720..937bac5 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1066,11 +1066,15 @@ class CsvReader(FrameReader):
         # find field names and parse to determine format
         try:
             has_header = sniffer.has_header(sample)
+            rows = list(csv.reader(sample.splitlines(), dialect=dialect))
         except csv.Error as ex:
             raise ParamError(str(ex)) from ex
+        if len(rows) == 1:
+            # the sniffer takes a single row to be a header
+            has_header = 'filename' in strip_lower_strlist(rows[0])
         if not fieldnames:
             if has_header:  # read field names from header
-                fieldnames = next(iter(csv.reader(sample.splitlines(), dialect=dialect)))
+                fieldnames = rows[0]
             else:  # assume fields in legacy format
                 fieldnames = CsvReader._legacy_fieldnames
         fieldnames = strip_lower_strlist(fieldnames)
-- 
2.43.0


From baecf5df85885070479fb1df84576d8d292a32d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:11 +0000
Subject: [PATCH 22/25] fix: raise ParamError for undecodable CSV files and
 rows without a file name

---
 orthority/param_io.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 937bac5..ea21a94 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -955,7 +955,7 @@ class CsvReader(FrameReader):
     """
 
     _type_schema = dict(
-        filename=str,
+        filename=Path,
         x=float,
         y=float,
         z=float,
@@ -997,7 +997,10 @@ class CsvReader(FrameReader):
         # read file once into a buffer (newline=None works around some delimiter detection problems
         # with newline='')
         with common.Open(self._ofile or file, 'rt', newline=None) as f:
-            self._buffer = StringIO(f.read())
+            try:
+                self._buffer = StringIO(f.read())
+            except UnicodeDecodeError as ex:
+                raise ParamError(f"Could not load '{common.get_filename(file)}': {ex!s}") from ex
 
         try:
             self._fieldnames, self._dialect, self._has_header, self._format = self._parse_file(
@@ -1130,7 +1133,7 @@ class CsvReader(FrameReader):
                     logger.debug(f"Using '{prj_name}' CRS: '{crs.to_string()}'")
                 except FileNotFoundError as ex:
                     logger.debug(f"Could not open '{prj_name}': {ex!s}")
-                except RioCrsError as ex:
+                except (RioCrsError, UnicodeDecodeError) as ex:
                     raise ParamError(f"Could not interpret CRS in '{prj_name}': {ex!s}")
             else:
                 # a file object was passed to __init__ so the CSV file path / URI is unknown and a
@@ -1184,8 +1187,8 @@ class CsvReader(FrameReader):
             _ = next(iter(reader))
 
         for row in reader:
-            filename = Path(row['filename']).name
             row = self._parse_row(row)
+            filename = row['filename'].name
             xyz, opk = self._convert(row, radians=self._radians)
             ext_param_dict[filename] = dict(xyz=xyz, opk=opk, camera=row.get('camera', None))
 
-- 
2.43.0


From c947017c8a0a647a4bc3e7fc96804fe8477e191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 23/25] fix: raise CrsError / ParamError for CRS strings that
 rasterio refuses with ValueError

---
 orthority/param_io.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index ea21a94..33e8e8b 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -38,7 +38,6 @@ import rasterio as rio
 import yaml
 from fsspec.core import OpenFile
 from rasterio.crs import CRS
-from rasterio.errors import CRSError as RioCrsError
 from rasterio.transform import RPC
 from rasterio.warp import transform
 from tqdm.auto import tqdm
@@ -634,7 +633,7 @@ def write_ext_param(
 
     try:
         crs = CRS.from_string(crs) if isinstance(crs, str) else crs
-    except RioCrsError as ex:
+    except ValueError as ex:
         raise CrsError(f"Could not interpret 'crs': {ex!s}")
     if not crs.is_projected:
         raise CrsError("'crs' should be a projected system.")
@@ -892,7 +891,7 @@ class FrameReader(ABC):
         if crs:
             try:
                 crs = CRS.from_string(crs) if isinstance(crs, str) else crs
-            except RioCrsError as ex:
+            except ValueError as ex:
                 raise CrsError(f"Could not interpret 'crs': {ex!s}")
             if not crs.is_projected:
                 raise CrsError("'crs' should be a projected system.")
@@ -900,7 +899,7 @@ class FrameReader(ABC):
         if lla_crs:
             try:
                 lla_crs = CRS.from_string(lla_crs) if isinstance(lla_crs, str) else lla_crs
-            except RioCrsError as ex:
+            except ValueError as ex:
                 raise CrsError(f"Could not interpret 'lla_crs': {ex!s}")
             if not lla_crs.is_geographic:
                 raise CrsError("'lla_crs' should be a geographic system.")
@@ -1133,7 +1132,7 @@ class CsvReader(FrameReader):
                     logger.debug(f"Using '{prj_name}' CRS: '{crs.to_string()}'")
                 except FileNotFoundError as ex:
                     logger.debug(f"Could not open '{prj_name}': {ex!s}")
-                except (RioCrsError, UnicodeDecodeError) as ex:
+                except ValueError as ex:
                     raise ParamError(f"Could not interpret CRS in '{prj_name}': {ex!s}")
             else:
                 # a file object was passed to __init__ so the CSV file path / URI is unknown and a
@@ -1446,7 +1445,7 @@ class OtyReader(FrameReader):
         if not crs:
             try:
                 crs = CRS.from_string(json_dict['world_crs'])
-            except RioCrsError as ex:
+            except ValueError as ex:
                 raise ParamError(f"Could not interpret CRS in '{filename}': {ex!s}")
 
         return crs, json_dict
-- 
2.43.0


From 494c250032359ed9f51fb36f44862bb106d394b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:24 +0000
Subject: [PATCH 24/25] fix: report too few GCPs for refinement as a usage
 error in 'oty rpc'

---
 orthority/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 200be36..911f793 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1014,7 +1014,7 @@ def rpc(
                 )
             else:
                 cameras.refine(gcp_refine, fit_kwargs=fit_kwargs)
-        except (FileNotFoundError, OrthorityError) as ex:
+        except (FileNotFoundError, OrthorityError, ValueError) as ex:
             raise click.BadParameter(str(ex), param_hint="'-gr / --gcp-refine'")
 
     # orthorectify
-- 
2.43.0


From ec6fb454916e2721bf5cde428161bf58737235eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 25/25] fix: write each simple-ortho ortho to the directory of
 its own source image

Without --ortho-dir, the directory of the first source was used for the orthos of
all sources.
---
 orthority/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 911f793..02a5feb 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1340,8 +1340,8 @@ def _simple_ortho(
                 xyz = np.array((im_pos_ori['x'], im_pos_ori['y'], im_pos_ori['z']))
 
                 # set ortho filename
-                ortho_dir = src_filename.parent if not ortho_dir else ortho_dir
-                ortho_filename = Path(ortho_dir).joinpath(src_filename.stem + '_ORTHO.tif')
+                out_dir = src_filename.parent if not ortho_dir else ortho_dir
+                ortho_filename = Path(out_dir).joinpath(src_filename.stem + '_ORTHO.tif')
 
                 # Get src size
                 with common.suppress_no_georef(), rio.open(src_filename) as src_im:
-- 
2.43.0

