From 37f1ef1301efc3e67f4b5593ffa7be1b1cce76d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 01/26] fix: drop the bare-name imports that made the
 documented commands fail

`python all_multipliers.py` stopped with ModuleNotFoundError (meta, convert,
parallel) unless utilities/ was on PYTHONPATH; the packaged imports beside
them already provide the same names.
---
 utilities/blrb.py       | 1 -
 utilities/mpi_runner.py | 2 --
 2 files changed, 3 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index a77cae8..3e5c65d 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -11,7 +11,6 @@ makes some of the code harder to follow.
 import numpy
 import logging
 from utilities.meta import print_call
-from meta import print_call
 import math
 
 LOGGER = logging.getLogger('root.' + __name__)
diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 0f4a0a6..bfede40 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -7,8 +7,6 @@ from osgeo import gdal
 
 from utilities.convert import Converter, create_sub_dirs_for_convert
 from utilities.parallel import attempt_parallel
-from convert import Converter, create_sub_dirs_for_convert
-from parallel import attempt_parallel
 
 
 def parallelise_convert_on_tiles(data_path, comm):
-- 
2.43.0


From 197419cc986006921f5bdd8a2fd447ce1bf2d1ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 02/26] fix: topographic multiplier of an integer DEM

Writing NaN into an int32 elevation array raised ValueError; convert to float
first, as the shielding module already does.
---
 topographic/topo_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 3c30a0c..1b8c1a7 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -60,7 +60,7 @@ def topomult(input_dem, tile_extents_nobuffer):
     lon, lat = get_lat_lon(tile_extents_nobuffer, pixelwidth, pixelheight)
 
     band = ds.GetRasterBand(1)
-    elevation_array = band.ReadAsArray(0, 0, nc, nr)
+    elevation_array = band.ReadAsArray(0, 0, nc, nr).astype(float)
 
     nodata_value = band.GetNoDataValue()
     if nodata_value is not None:
-- 
2.43.0


From 4e64fa452e8a095f77111095988c3112a8bde193 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 03/26] fix: hill near the start of a line must not write to
 the end of the line

When the influence zone starts at index 0 the loop began at -1, which is the
last point of the line.
---
 topographic/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/mh.py b/topographic/mh.py
index 76bf130..8c5deaa 100644
--- a/topographic/mh.py
+++ b/topographic/mh.py
@@ -85,7 +85,7 @@ def mh_calc(profile, ridge, valley, data_spacing):
 
     # calculate the mh from the front l2_capital to the back l2_capital with
     # the escarpment factor considered:
-    l1 = int(np.floor(fl2_ind)) - 1
+    l1 = max(0, int(np.floor(fl2_ind)) - 1)
     l2 = int(
         np.floor(
             np.minimum(
-- 
2.43.0


From 6988bc2b939cfdf0e2264a231d15f6e71b7fd603 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 04/26] fix: terrain averaging on grids coarser than the
 averaging distance

avg_width is 0 there, and the average divided by zero.
---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 3b24600..68257d5 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -226,7 +226,7 @@ def convo(one_dir, data, avg_width, lag_width):
             all_neighb_no = all_neighbour_lambda(i, jj, rows, cols,
                                                  lag_width)
 
-            if all_neighb_no > 0:
+            if all_neighb_no > 0 and avg_width > 0:
                 if all_neighb_no < avg_width:
                     max_neighb_no = all_neighb_no
                 else:
-- 
2.43.0


From b73c3741cc39f5f6b1547d059a07129e891c37b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 05/26] fix: bisect grids at whole indices and interpolate
 one-cell blocks

Python 3 true division gave fractional blocks for odd sizes (values beyond the
evaluated corners), and a block of one row or column divided by zero (NaN).
---
 utilities/blrb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index 3e5c65d..3eaa404 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -48,8 +48,8 @@ def bilinear(shape, f_ul, f_ur, f_lr, f_ll, dtype=numpy.float64):
 
     s, t = [a.astype(dtype) for a in numpy.ogrid[0:shape[0], 0:shape[1]]]
 
-    s /= (shape[0] - 1.0)
-    t /= (shape[1] - 1.0)
+    s /= max(shape[0] - 1.0, 1.0)
+    t /= max(shape[1] - 1.0, 1.0)
 
     return s * (t * f_lr + (1.0 - t) * f_ll) + \
         (1.0 - s) * (t * f_ur + (1.0 - t) * f_ul)
@@ -92,8 +92,8 @@ def subdivide(origin=DEFAULT_ORIGIN, shape=DEFAULT_SHAPE):
               'LR': <list of 2-tuples> }
     """
     i0, ie, j0, je = indices(origin, shape)
-    ic = origin[0] + shape[0] / 2
-    jc = origin[1] + shape[1] / 2
+    ic = origin[0] + shape[0] // 2
+    jc = origin[1] + shape[1] // 2
 
     return {
         'UL': [(i0, j0), (i0, jc), (ic, j0), (ic, jc)],
-- 
2.43.0


From 9c627379b273f41a1b13795bb1f88c6d793db3f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 06/26] fix: cells missing in a multiplier stay missing in the
 product

The raw data under the mask was written: products of -9999, not -9999.
---
 utilities/convert.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0e77a4..22eec9f 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -137,8 +137,7 @@ class Converter:
             # Write the pre-multiplied value to a band
             band = out_ds.GetRasterBand(band_index)
             try:
-                band.WriteArray(multiplied.data[::-1])
-                band.WriteArray(multiplied.data)
+                band.WriteArray(multiplied.filled(self.missing_value))
             except ValueError:
                 log.error("Mismatch between output file and data array")
                 log.error(multiplied.data.shape)
-- 
2.43.0


From f300bdba9bcfecde4f4ee54384c3ae70f074554b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 07/26] fix: shielding directions must not feed into each other
 on coarse grids

combine() works in place; without convolution every direction started from the
result of the one before.
---
 shielding/shield_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index fd30647..213e8fa 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -306,7 +306,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
             mask = kern_dir(kernel_size)
             outdata = blur_image(data, mask)
         else:
-            outdata = data
+            outdata = data.copy()
 
         result = combine(outdata, slope_array, aspect_array, one_dir)
         log.debug('Maximum shielding value is {0}'.format(result.max()))
-- 
2.43.0


From 8e2532f09642bbf28b427c42bbbf11bd706c704f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 08/26] fix: write every variable to the netCDF file

The function returned from inside the loop after the first variable, so crs was
never written.
---
 utilities/nctools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 86f73d5..bc5db37 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -283,14 +283,14 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
         var.setncatts(v['atts'])
         ncobj.setncatts(gatts)
 
-        if datatitle:
-            ncobj.setncattr('title', datatitle)
-
-        if keepfileopen:
-            return ncobj
-        else:
-            ncobj.close()
-            return
+    if datatitle:
+        ncobj.setncattr('title', datatitle)
+
+    if keepfileopen:
+        return ncobj
+    else:
+        ncobj.close()
+        return
 
 
 def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
-- 
2.43.0


From ab4e43feab09df429d3972ad4ec64bc0175e9565 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 09/26] fix: run git describe in the code directory without
 changing ours

A failing git left the process in the code directory.
---
 utilities/nctools.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index bc5db37..917d078 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -318,10 +318,9 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
 
     # Collect git info - need to make sure git command is executed from
     # code - not from data directory
-    cwd = os.getcwd()  # save working directory
-    os.chdir(os.path.dirname(os.path.realpath(__file__)))
-    git_info = subprocess.check_output(["git", "describe"])
-    os.chdir(cwd)  # restore working directory from saved value
+    git_info = subprocess.check_output(
+        ["git", "describe"],
+        cwd=os.path.dirname(os.path.realpath(__file__)))
 
     # Set global attributes, including metadata capture:
     global_atts = {'Abstract': ('This dataset is the local ' +
-- 
2.43.0


From 824e75f12efa4863f8dce832ded8abaa8a1272fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 10/26] fix: save multipliers where git describe gives no
 version

A downloaded copy (no git, no checkout or no tag) could not save any output.
---
 utilities/nctools.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 917d078..caa0289 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -318,9 +318,12 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
 
     # Collect git info - need to make sure git command is executed from
     # code - not from data directory
-    git_info = subprocess.check_output(
-        ["git", "describe"],
-        cwd=os.path.dirname(os.path.realpath(__file__)))
+    try:
+        git_info = subprocess.check_output(
+            ["git", "describe"],
+            cwd=os.path.dirname(os.path.realpath(__file__)))
+    except (OSError, subprocess.CalledProcessError):
+        git_info = 'unknown'
 
     # Set global attributes, including metadata capture:
     global_atts = {'Abstract': ('This dataset is the local ' +
-- 
2.43.0


From 5fadc4b78fb17f5c799303c63a845986338a1981 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 11/26] fix: shielding must not move the process to the output
 folder

With a relative output_dir every later path of the run was looked up in the
wrong folder.
---
 shielding/shield_mult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 213e8fa..74db78f 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -334,8 +334,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
         os.remove(ms_orig)
     except:
         pass
-    os.chdir(ms_folder)
-    filelist = glob.glob('*.xml')
+    filelist = glob.glob(pjoin(ms_folder, '*.xml'))
 
     log.debug("useless xml files: {0}".format(repr(filelist)))
 
-- 
2.43.0


From c538a39ff9252a58601c942e9d815d656647223d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 12/26] fix: tiles without buffer must not overlap

The limits were rebuilt from the clipped buffered limits, which is wrong where
the buffer reaches the edge of the raster from an inner tile.
---
 all_multipliers.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 69ceb7d..1feeb0f 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -166,25 +166,12 @@ class TileGrid(object):
 
         """
 
-        if int(self.x_start[k]) != 0:
-            x1 = int(self.x_start[k] + self.x_buffer)
-        else:
-            x1 = self.x_start[k]
-
-        if int(self.y_start[k]) != 0:
-            y1 = int(self.y_start[k] + self.y_buffer)
-        else:
-            y1 = self.y_start[k]
+        i, j = divmod(k, self.subset_maxrows)
 
-        if int(self.x_end[k]) != (self.x_dim - 1):
-            x2 = int(self.x_end[k] - self.x_buffer + 1)
-        else:
-            x2 = self.x_dim
-
-        if int(self.y_end[k]) != (self.y_dim - 1):
-            y2 = int(self.y_end[k] - self.y_buffer + 1)
-        else:
-            y2 = self.y_dim
+        x1 = i * self.x_step
+        x2 = min((i + 1) * self.x_step, self.x_dim)
+        y1 = j * self.y_step
+        y2 = min((j + 1) * self.y_step, self.y_dim)
 
         return x1, x2, y1, y2
 
-- 
2.43.0


From e4228c3ca52f758fd6b4f194d49183589a6c183a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 13/26] fix: replace an unreadable multiplier with ones on any
 tile

The substitute had rows and columns swapped, and no georeference yet when the
first file of the tile was the unreadable one.
---
 utilities/convert.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 22eec9f..1fe0a53 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -92,6 +92,7 @@ class Converter:
         tmpds = gdal.Open(pjoin(self.path, "shielding", f"{tile}_ms_n.nc"))
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
+        transform = tmpds.GetGeoTransform()
 
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
 
@@ -103,8 +104,6 @@ class Converter:
 
         band_index = 1
 
-        first = True
-
         for direction in self.directions:
             bands = []
 
@@ -121,16 +120,12 @@ class Converter:
                     ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
                     ds.SetGeoTransform(transform)
                     band = ds.GetRasterBand(1)
-                    band.WriteArray(np.ones((nx, ny)))
+                    band.WriteArray(np.ones((ny, nx)))
 
                 bands.append(ma.masked_values(
                     BandReadAsArray(ds.GetRasterBand(1)),
                     self.missing_value))
 
-                if first:
-                    transform = ds.GetGeoTransform()
-                    first = False
-
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
 
-- 
2.43.0


From d7cdb90b3e97677fa3385d7444a867f994dcf817 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 14/26] fix: the maximum raster has one band

A second, empty band was added.
---
 utilities/convert.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 1fe0a53..3efcfb5 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -57,7 +57,6 @@ class Converter:
         maxima = np.max(np.dstack(bands), axis=2)
         # Create output dataset - single band required (maximum only)
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
-        out_ds.AddBand(gdal.GDT_Float32)
         band = out_ds.GetRasterBand(1)
         band.WriteArray(maxima.data)
         band.SetDescription("Maximum of all directions")
-- 
2.43.0


From 47d4ef0b0157ca524bb12b63c5aabe9748f9dba5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 15/26] fix: missing terrain cells stay missing on tiles
 smaller than the lag

---
 terrain/terrain_mult.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 68257d5..7a3a83b 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -117,7 +117,7 @@ def terrain(temp_tile, tile_extents_nobuffer):
 
         # if the tile is smaller than the lag distance, no convolultion
         if lag_width > reclassified_array.shape[0]:
-            outdata = reclassified_array
+            outdata = reclassified_array.copy()
         else:
             # if the tile is smaller than the upwind buffer, all the tile is in
             # buffer
@@ -126,7 +126,8 @@ def terrain(temp_tile, tile_extents_nobuffer):
 
             log.info('convolution average width ' + str(avg_width))
             outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-            outdata[mask] = np.nan
+
+        outdata[mask] = np.nan
 
         # find output folder
         tile_folder = os.path.dirname(temp_tile)
-- 
2.43.0


From a1c33de7567353ffb502dc75b8cb7c3c7db2b890 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 16/26] fix: spatial join with shapely 2

STRtree.query returns positions there, and the join raised TypeError.
---
 utilities/shapefiles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 2779db0..5a37adf 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -74,8 +74,10 @@ class shp_file:
 
         def process(i):
             poly = self.geom[i]
-            fids = [index_by_id[id(pt)] for pt in idx_other.query(poly)
-                    if poly.intersects(pt)]
+            # the tree gives geometries (shapely 1) or their positions
+            hits = [index_by_id.get(id(hit), hit)
+                    for hit in idx_other.query(poly)]
+            fids = [i for i in hits if poly.intersects(other.geom[i])]
             if len(fids) == 0:
                 return None
             elif len(fids) == 1:
-- 
2.43.0


From 14711f0a9809f6476769bb7ad5c92dbd25ce940d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 17/26] fix: great circle points on a sphere are lists

Python 3 map objects can be read only once and have no length.
---
 utilities/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 3f69a31..ee4e885 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -103,8 +103,8 @@ class GreatCircle(object):
             z = A * math.sin(lat1) + B * math.sin(lat2)
             lats = np.arctan2(z, np.sqrt(x ** 2 + y ** 2))
             lons = np.arctan2(y, x)
-            lons = map(math.degrees, lons.tolist())
-            lats = map(math.degrees, lats.tolist())
+            lons = [math.degrees(lon) for lon in lons.tolist()]
+            lats = [math.degrees(lat) for lat in lats.tolist()]
         # use ellipsoid formulas
         else:
             latpt = self.lat1
-- 
2.43.0


From b1e8f3fa9ae395d8d69795e719c5e8205eca1915 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 18/26] fix: a configuration file that does not exist is an
 error

The run silently used the default configuration, and its output folder.
---
 utilities/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/config.py b/utilities/config.py
index c6c3eae..42a6792 100644
--- a/utilities/config.py
+++ b/utilities/config.py
@@ -49,6 +49,8 @@ class _ConfigParser(RawConfigParser):
         """
         Change configuration file
         """
+        if not os.path.exists(config_file):
+            raise IOError("No configuration file {0}".format(config_file))
         self.config_file = config_file
         self.readonce = False
         self._read_file()
-- 
2.43.0


From 1fce1b9de58cfccd2f3e963115df91e2be504f01 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 19/26] fix: evaluate pixel sizes at (row, column)

The interpolation passes the row first; it was taken for the column, so the
grids were transposed.
---
 utilities/get_pixel_size_grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index 7955341..f916267 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -120,22 +120,22 @@ def get_pixel_size_grids(dataset):
     :return: tuple of :class:`numpy.ndarray` grid sizes for input dataset
     """
 
-    def get_pixel_x_size(x, y):
+    def get_pixel_x_size(y, x):
         """
         Returns x size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param y, x: the row and column of the pixel
 
         :return: `float` the grid x size at the input (x, y) point
         """
 
         return get_pixel_size(dataset, (x, y))[0]
 
-    def get_pixel_y_size(x, y):
+    def get_pixel_y_size(y, x):
         """
         Returns y size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param y, x: the row and column of the pixel
 
         :return: `float` the grid y size at the input (x, y) point
         """
-- 
2.43.0


From 609d07259f3ed4514a9c4a4223a6087dbc4c3374 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 20/26] fix: smooth the topographic multiplier without zeros
 outside the raster

Cells on the edge were averaged with zeros: flat ground got 0.67.
---
 topographic/topo_mult.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 1b8c1a7..e3d8afe 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -134,7 +134,8 @@ def topomult(input_dem, tile_extents_nobuffer):
 
         # smooth
         g = np.ones((3, 3)) / 9.
-        mhsmooth = signal.convolve(mhdata, g, mode='same')
+        mhsmooth = signal.convolve(np.pad(mhdata, 1, mode='edge'), g,
+                                   mode='valid')
         mhsmooth[np.isnan(elevation_array)] = np.nan
         del mhdata
 
-- 
2.43.0


From 6d403903c2d6063d2a3b2151de7805cbe2140d11 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 21/26] fix: processes that make the log folder together all
 use it

---
 all_multipliers.py | 2 +-
 utilities/files.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 1feeb0f..a6fceb8 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -713,7 +713,7 @@ def run():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'multipliers.log')
 
diff --git a/utilities/files.py b/utilities/files.py
index 0d27f9f..18f7ab6 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -246,7 +246,7 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
     log_dir = os.path.dirname(os.path.realpath(log_file))
     if not os.path.isdir(log_dir):
         try:
-            os.makedirs(log_dir)
+            os.makedirs(log_dir, exist_ok=True)
         except OSError:
             # Unable to create the directory, so stick it in the
             # current working directory:
-- 
2.43.0


From a25f9c3d5d20430a28e41f9e73d52765c79cc03f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:20 +0000
Subject: [PATCH 22/26] fix: a missing terrain table ends the run with an error
 status

---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 7a3a83b..de69ddd 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -169,7 +169,7 @@ def get_terrain_table():
         mz_init = pd.read_csv(terrain_table, comment='#', index_col=False)
     except IOError:
         log.exception(f"Terrain table file does not exist: {terrain_table}")
-        sys.exit()
+        sys.exit(1)
     except:
         raise
 
-- 
2.43.0


From 9b9cbe9f77bf1f400f1f43ef972952dbe2969172 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 23/26] fix: a configuration file that cannot be read is an
 error

---
 utilities/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utilities/config.py b/utilities/config.py
index 42a6792..6b372d7 100644
--- a/utilities/config.py
+++ b/utilities/config.py
@@ -42,8 +42,7 @@ class _ConfigParser(RawConfigParser):
         Read the specified config file if not read already
         """
         if not self.readonce:
-            self.read(self.config_file)
-            self.readonce = True
+            self.readonce = bool(self.read(self.config_file))
 
     def set_config_file(self, config_file):
         """
@@ -54,6 +53,9 @@ class _ConfigParser(RawConfigParser):
         self.config_file = config_file
         self.readonce = False
         self._read_file()
+        if not self.readonce:
+            raise IOError("Cannot read configuration file {0}".format(
+                config_file))
 
 
 configparser = _ConfigParser()
-- 
2.43.0


From f22494637818f00bc77b812ec8bc52c144db62d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:10 +0000
Subject: [PATCH 24/26] fix: global attributes do not depend on the variables
 given

---
 utilities/nctools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index caa0289..a594d8b 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -281,6 +281,8 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
             var[:] = np.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
+
+    if gatts:
         ncobj.setncatts(gatts)
 
     if datatitle:
-- 
2.43.0


From e4426fb6195540ed3138efcbb1d23dd2c8f5ca7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:16 +0000
Subject: [PATCH 25/26] fix: distance between points on the equator

---
 utilities/vincenty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index ee4e885..79983b5 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -224,7 +224,8 @@ def vinc_dist(f, a, phi1, lembda1, phi2, lembda2):
 
         Sin_alpha = math.cos(U1) * math.cos(U2) * math.sin(lembda) / \
             math.sin(sigma)
-        alpha = math.asin(Sin_alpha)
+        # rounding takes it beyond one for two points on the equator
+        alpha = math.asin(max(-1.0, min(1.0, Sin_alpha)))
 
         Cos2sigma_m = math.cos(sigma) - (2 * math.sin(U1) * math.sin(U2) /
                                          pow(math.cos(alpha), 2))
-- 
2.43.0


From 49a90d9f6e67d31e6105f0abac2566d059f38c00 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:20 +0000
Subject: [PATCH 26/26] fix: the third term of Vincenty's direct formula

---
 utilities/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 79983b5..112463c 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -346,11 +346,11 @@ def vinc_pt(f, a, phi1, lembda1, alpha12, s):
             (math.cos(two_sigma_m) +
              (B / 4) * (math.cos(sigma) *
                         (-1 + 2 * math.pow(
-                              math.cos(two_sigma_m), 2) -
+                              math.cos(two_sigma_m), 2)) -
                         (B / 6) * math.cos(two_sigma_m) *
                         (-3 + 4 * math.pow(math.sin(sigma), 2)) *
                         (-3 + 4 * math.pow(
-                               math.cos(two_sigma_m), 2)))))
+                               math.cos(two_sigma_m), 2))))
 
         last_sigma = sigma
         sigma = (s / (b * A)) + delta_sigma
-- 
2.43.0

