"""What the shielding step has to write for a tile."""

import glob
import math
import os

import numpy as np
from osgeo import gdal
from osgeo.gdalconst import GDT_Float32
from scipy import ndimage

from shielding.shield_mult import combine, get_shielding_table, \
    reclassify_aspect
from shielding import shield_mult
from utilities.nctools import save_multiplier, get_lat_lon, clip_array
from utilities.get_pixel_size_grid import get_pixel_size_grids


def initial(terrain):
    """Raster of initial shielding values: the table's percentage per land
    cover class, 1 for classes that are not in the table, missing where the
    land cover is missing."""
    ds = gdal.Open(terrain)
    band = ds.GetRasterBand(1)
    data = band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
    nodata = band.GetNoDataValue()
    if nodata is not None:
        data[data == nodata] = -99
    missing = data == -99
    out = np.ones_like(data, dtype=np.float32)
    for ix, row in get_shielding_table().iterrows():
        out[data == row['CATEGORY']] = row['SHIELDING'] / 100.
    out[missing] = np.nan
    stem = os.path.splitext(os.path.basename(terrain))[0]
    name = os.path.join(os.path.dirname(terrain), 'shielding',
                        stem + '_ms.img')
    target = gdal.GetDriverByName('HFA').Create(
        name, ds.RasterXSize, ds.RasterYSize, 1, GDT_Float32)
    target.SetGeoTransform(ds.GetGeoTransform())
    target.SetProjection(ds.GetProjection())
    target.GetRasterBand(1).WriteArray(out)
    return name


def directions(ms_orig, slope, aspect, extent):
    ds = gdal.Open(ms_orig)
    gt = ds.GetGeoTransform()
    lon, lat = get_lat_lon(extent, gt[1], -gt[5])
    data = ds.GetRasterBand(1).ReadAsArray(0, 0, ds.RasterXSize,
                                           ds.RasterYSize)
    x_m, y_m = get_pixel_size_grids(ds)
    cell = 0.5 * (np.mean(x_m) + np.mean(y_m))
    size = int(100. / cell)
    stem = os.path.splitext(os.path.basename(ms_orig))[0]
    for d in ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']:
        if size > 0:
            kernel = getattr(shield_mult, 'kern_' + d)(size)
            mean = ndimage.convolve(data, kernel, mode='constant', cval=1.0)
        else:
            mean = data.copy()
        out = combine(mean, slope, aspect, d)
        name = os.path.join(os.path.dirname(ms_orig), stem + '_' + d + '.nc')
        save_multiplier('Ms', clip_array(out, gt[0], -gt[3], gt[1], -gt[5],
                                         extent), lat, lon, name)


def slope_aspect(dem_file):
    """Slope in degrees (missing where the DEM is) and compass sector of the
    downslope direction, from Sobel gradients in metres."""
    ds = gdal.Open(dem_file)
    cols, rows = ds.RasterXSize, ds.RasterYSize
    band = ds.GetRasterBand(1)
    z = band.ReadAsArray(0, 0, cols, rows).astype(float)
    missing = band.GetNoDataValue()
    if missing is not None:
        z = np.where(z == missing, np.nan, z)
    dx, dy = get_pixel_size_grids(ds)
    east = ndimage.sobel(z, axis=1) / 8. / dx
    south = ndimage.sobel(z, axis=0) / 8. / dy
    slope = np.where(np.isnan(z), np.nan,
                     np.arctan(np.hypot(east, south)) / (math.pi / 180.))
    bearing = (90. - np.arctan2(south, -east) / (math.pi / 180.)) % 360.
    return slope, reclassify_aspect(bearing)


def step(terrain, dem, extent):
    """The shielding step of a tile, from its parts."""
    initial_values = shield_mult.terrain_class2ms_orig(terrain)
    slope, aspect = shield_mult.get_slope_aspect(dem)
    shield_mult.convo_combine(initial_values, slope, aspect, extent)
