"""The combined products of one tile."""

import os

import numpy as np
from osgeo import gdal

ORDER = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
PARTS = [('shielding', 'ms'), ('terrain', 'mz'), ('topographic', 'mt')]


def product(folder, tile, proj):
    """Band k: the product of the three multipliers of direction k, -9999
    where one of them is; a multiplier without a file counts as 1."""
    first = gdal.Open(os.path.join(folder, 'shielding', tile + '_ms_n.nc'))
    nx, ny = first.RasterXSize, first.RasterYSize
    grid = first.GetGeoTransform()
    out = gdal.GetDriverByName('MEM').Create('', nx, ny, 1,
                                             gdal.GDT_Float32)
    for k in range(7):
        out.AddBand(gdal.GDT_Float32)
    for k, direction in enumerate(ORDER):
        value = np.ones((ny, nx))
        missing = np.zeros((ny, nx), dtype=bool)
        for part, short in PARTS:
            name = os.path.join(folder, part, tile + '_' + short + '_' +
                                direction + '.nc')
            try:
                m = gdal.Open(name).GetRasterBand(1).ReadAsArray()
            except RuntimeError:
                m = np.ones((ny, nx))
            missing = missing | (m == -9999)
            value = value * m
        band = out.GetRasterBand(k + 1)
        band.WriteArray(np.where(missing, -9999, value))
        band.SetDescription(direction)
        band.SetNoDataValue(-9999)
    out.SetProjection(proj)
    out.SetGeoTransform(grid)
    name = os.path.join(folder, 'M3', tile + '.tif')
    gdal.Translate(name, out)
    return [name]


def largest(folder, tile, proj):
    """One band: the largest of the eight bands, -9999 where all are."""
    src = gdal.Open(os.path.join(folder, 'M3', tile + '.tif'))
    nx, ny = src.RasterXSize, src.RasterYSize
    out = gdal.GetDriverByName('MEM').Create('', nx, ny, 1,
                                             gdal.GDT_Float32)
    m = src.GetRasterBand(1).ReadAsArray()
    for k in range(1, 8):
        m = np.maximum(m, src.GetRasterBand(k + 1).ReadAsArray())
    band = out.GetRasterBand(1)
    band.WriteArray(m)
    band.SetNoDataValue(-9999)
    out.SetProjection(proj)
    out.SetGeoTransform(src.GetGeoTransform())
    name = os.path.join(folder, 'M3_max', tile + '.tif')
    gdal.Translate(name, out)
    return [name]
