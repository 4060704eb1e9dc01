"""Helpers for the demonstrations: a scratch folder, rasters, a serial run."""
import atexit
import glob
import logging
import os
import shutil
import sys
import tempfile

import numpy as np
from osgeo import gdal, osr

for p in ('topographic', 'utilities', ''):
    sys.path.insert(0, os.path.join(os.getcwd(), p))

SCRATCH = tempfile.mkdtemp(prefix='wmdemo')
atexit.register(shutil.rmtree, SCRATCH, True)


def path(*a):
    return os.path.join(SCRATCH, *a)


def raster(name, data, x=150.0, y=-20.0, dx=0.005, dy=None, nodata=None,
           gtype=gdal.GDT_Float32):
    data = np.asarray(data)
    fn = path(name)
    ds = gdal.GetDriverByName('GTiff').Create(
        fn, data.shape[1], data.shape[0], 1, gtype)
    ds.SetGeoTransform((x, dx, 0, y, 0, -(dy or dx)))
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(4326)
    ds.SetProjection(srs.ExportToWkt())
    ds.GetRasterBand(1).WriteArray(data)
    if nodata is not None:
        ds.GetRasterBand(1).SetNoDataValue(nodata)
    ds = None
    return fn


def table(rows=((1, 0.6, 95), (2, 0.4, 100), (3, 0.002, 100),
                (4, 0.2, 85))):
    fn = path('table.csv')
    with open(fn, 'w') as f:
        f.write('CATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,SHIELDING\n')
        for c, z, s in rows:
            f.write('%d,class %d,%g,%g\n' % (c, c, z, s))
    return fn


def configure(dem='', lcv='', upwind=0.01, out=None):
    out = out or path('out')
    fn = path('multipliers.cfg')
    with open(fn, 'w') as f:
        f.write('[inputValues]\nroot = %s\nupwind_length = %s\n'
                'terrain_data = %s\nterrain_table = %s\ndem_data = %s\n'
                '[Output]\noutput_dir = %s\n'
                '[Logging]\nLogFile = %s\nLogLevel = ERROR\n'
                'Verbose = False\n' % (os.getcwd(), upwind, lcv, table(), dem,
                                       out, path('log', 'wm.log')))
    return fn


def settings(fn):
    from utilities.config import configparser
    configparser.set_config_file(fn)


def run(cfg):
    import all_multipliers
    sys.argv = ['all_multipliers.py', '-c', cfg]
    all_multipliers.run()
    return path('out')


def read(fn, band=1):
    ds = gdal.Open(fn)
    return ds.GetRasterBand(band).ReadAsArray()


def var(fn, name):
    import netCDF4
    ds = netCDF4.Dataset(fn)
    out = np.ma.filled(ds.variables[name][:], np.nan)
    ds.close()
    return out


def check(ok, text):
    if not ok:
        print('FAILED: ' + text)
        sys.stdout.flush()
        sys.exit(1)
