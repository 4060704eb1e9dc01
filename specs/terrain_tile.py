"""What the terrain step has to write for a tile."""

import os

import numpy as np
from osgeo import gdal

from terrain.terrain_mult import convo, terrain_class2mz_orig, \
    get_terrain_table
from utilities.nctools import save_multiplier, get_lat_lon, clip_array
from utilities.get_pixel_size_grid import get_pixel_size_grids


def widths(direction, cell):
    """Numbers of cells in the averaging and the lag distance."""
    if direction in ('n', 's', 'e', 'w'):
        return int(np.around(500. / cell)), int(np.around(200. / cell))
    return int(500. / (cell * 1.414)), int(200. / (cell * 1.414))


def tile(temp_tile, extent):
    ds = gdal.Open(temp_tile)
    gt = ds.GetGeoTransform()
    lon, lat = get_lat_lon(extent, gt[1], -gt[5])
    x_m, y_m = get_pixel_size_grids(ds)
    cell = 0.5 * (np.mean(x_m) + np.mean(y_m))
    band = ds.GetRasterBand(1)
    data = band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
    mz = terrain_class2mz_orig(data, get_terrain_table())
    if np.max(mz) == 0:
        return
    missing = (mz == 0) | np.isnan(mz)
    start = np.where(missing, 1.0, mz)
    rows = start.shape[0]
    for d in ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']:
        avg, lag = widths(d, cell)
        if lag > rows:
            out = start.copy()
        else:
            out = convo(d, start, min(avg, rows - lag), lag)
        out = np.where(missing, np.nan, out)
        stem = os.path.splitext(os.path.basename(temp_tile))[0]
        name = os.path.join(os.path.dirname(temp_tile), 'terrain',
                            stem + '_mz_' + d + '.nc')
        save_multiplier('Mz', clip_array(out, gt[0], -gt[3], gt[1], -gt[5],
                                         extent), lat, lon, name)
