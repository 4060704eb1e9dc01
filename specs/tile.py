"""What happens to one tile before and after the multipliers."""

import os

import numpy as np
from osgeo import gdal, osr
from osgeo.gdalconst import GA_ReadOnly, GDT_Float32, GDT_Int32, \
    GRA_NearestNeighbour

import terrain.terrain_mult
import shielding.shield_mult
import topographic.topo_mult
from all_multipliers import reproject_dataset


def cut(dem_file, extent, nx, ny, out):
    """The cells of the DEM inside the extent, same cell size, projection
    and type, as a raster of its own."""
    ds = gdal.Open(dem_file, GA_ReadOnly)
    gt = ds.GetGeoTransform()
    kind = ds.GetRasterBand(1).ReadAsArray().dtype
    proj = ds.GetProjection()
    t = GDT_Int32 if kind == 'int32' else GDT_Float32
    dst = gdal.GetDriverByName('HFA').Create(out, nx, ny, 1, t)
    dst.SetGeoTransform((extent[0], gt[1], 0, extent[1], 0, gt[5]))
    dst.SetProjection(proj)
    gdal.ReprojectImage(ds, dst, proj, proj)


def resample(src_file, match, out):
    """The nearest source cell for every cell of the raster to match."""
    src = gdal.Open(src_file, GA_ReadOnly)
    kind = src.GetRasterBand(1).ReadAsArray().dtype
    t = GDT_Int32 if kind == 'int32' else GDT_Float32
    dst = gdal.GetDriverByName('HFA').Create(
        out, match.RasterXSize, match.RasterYSize, 1, t)
    dst.SetGeoTransform(match.GetGeoTransform())
    dst.SetProjection(match.GetProjection())
    gdal.ReprojectImage(src, dst, src.GetProjection(),
                        match.GetProjection(), GRA_NearestNeighbour)


def resample_as(src_file, match_file, out, method, epsg):
    """The same for a raster to match that is a file, with another way to
    resample and, if given, with a projection of its own."""
    src = gdal.Open(src_file, GA_ReadOnly)
    kind = src.GetRasterBand(1).ReadAsArray().dtype
    match = gdal.Open(match_file, GA_ReadOnly)
    if epsg:
        srs = osr.SpatialReference()
        srs.ImportFromEPSG(epsg)
        proj = srs.ExportToWkt()
    else:
        proj = match.GetProjection()
    t = GDT_Int32 if kind == 'int32' else GDT_Float32
    dst = gdal.GetDriverByName('HFA').Create(
        out, match.RasterXSize, match.RasterYSize, 1, t)
    dst.SetGeoTransform(match.GetGeoTransform())
    dst.SetProjection(proj)
    gdal.ReprojectImage(src, dst, src.GetProjection(), proj, method)


def calculate(landcover, folder, dem_tile, info):
    """Land cover on the cells of the tile, the three multipliers on the
    core, then no temporary file is left; nothing for an empty tile."""
    ds = gdal.Open(dem_tile)
    if ds.GetRasterBand(1).Checksum() > 0:
        lc = os.path.join(folder, info[0] + '.img')
        reproject_dataset(landcover, ds, lc)
        terrain.terrain_mult.terrain(lc, info[2])
        shielding.shield_mult.shield(lc, dem_tile, info[2])
        topographic.topo_mult.topomult(dem_tile, info[2])
        os.remove(dem_tile)
        os.remove(lc)
    else:
        os.remove(dem_tile)
