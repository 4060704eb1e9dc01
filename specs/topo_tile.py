"""What the topographic step has to do for a tile."""

import math
import os

import numpy as np
from osgeo import gdal
from scipy import signal

from topographic.make_path import make_path
from topographic.multiplier_calc import multiplier_calc
from topographic.topo_mult import remove_conservatism, tasmania
from utilities.nctools import save_multiplier, get_lat_lon, clip_array
from utilities.get_pixel_size_grid import get_pixel_size_grids


def walk(nr, nc, n, direction):
    """Cells of the line that starts at cell n (column-major) and runs with
    the wind of the direction until it leaves the grid."""
    dr = {'n': 1, 's': -1}.get(direction[0], 0)
    dc = {'w': 1, 'e': -1}.get(direction[-1], 0)
    i = n % nr
    j = n // nr
    room = nr + nc
    if dr > 0:
        room = min(room, nr - i)
    if dr < 0:
        room = min(room, i + 1)
    if dc > 0:
        room = min(room, nc - j)
    if dc < 0:
        room = min(room, j + 1)
    return [i + dr * k + (j + dc * k) * nr for k in range(room)]


def softer(mh):
    """Less conservative hill-shape multiplier."""
    out = np.where((mh > 1) & (mh < 1.4), mh * (1.25 - 0.25 * mh), mh)
    return np.where(mh >= 1.4, mh * 0.9, out)


def high(mh, dem):
    """Tasmanian ground above 500 m."""
    return np.where(dem > 500.0, mh * (1 + 0.00015 * dem), mh)


def tile(dem_file, extent):
    """One Mt grid per direction: hill-shape multiplier along every line
    that enters the tile, conservatism, Tasmania, 3x3 mean, no data where
    the DEM has none, tile without its buffer."""
    ds = gdal.Open(dem_file)
    nc = ds.RasterXSize
    nr = ds.RasterYSize
    gt = ds.GetGeoTransform()
    lon, lat = get_lat_lon(extent, gt[1], -gt[5])
    band = ds.GetRasterBand(1)
    dem = band.ReadAsArray(0, 0, nc, nr).astype(float)
    missing = band.GetNoDataValue()
    if missing is not None:
        dem = np.where(dem == missing, np.nan, dem)
    cells = dem.T.flatten()
    dx, dy = get_pixel_size_grids(ds)
    size = (np.mean(dx) + np.mean(dy)) / 2
    for d in ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']:
        spacing = size * math.sqrt(2) if len(d) == 2 else size
        starts = []
        if 'n' in d:
            starts = np.append(starts, [j * nr for j in range(nc)])
        if 's' in d:
            starts = np.append(starts, [nr - 1 + j * nr for j in range(nc)])
        if 'e' in d:
            starts = np.append(starts, [(nc - 1) * nr + i
                                        for i in range(nr)])
        if 'w' in d:
            starts = np.append(starts, [i for i in range(nr)])
        starts = np.unique(starts)
        found = np.ones(nr * nc)
        for start in starts:
            path = make_path(nr, nc, start, d)
            heights = cells[path]
            heights = np.where(np.isnan(heights), 0., heights)
            found[path] = multiplier_calc(heights, spacing)[:, 0]
        grid = np.reshape(found, (nc, nr)).T
        grid = remove_conservatism(grid)
        if gt[0] > 143.0 and -gt[3] > 40.0:
            grid = tasmania(grid, dem)
        smooth = signal.convolve(np.pad(grid, 1, mode='edge'),
                                 np.ones((3, 3)) / 9., mode='valid')
        smooth = np.where(np.isnan(dem), np.nan, smooth)
        name = os.path.splitext(os.path.basename(dem_file))[0][:-4]
        save_multiplier('Mt', clip_array(smooth, gt[0], -gt[3], gt[1],
                                         -gt[5], extent), lat, lon,
                        os.path.join(os.path.dirname(dem_file),
                                     'topographic',
                                     name + '_mt_' + d + '.nc'))
