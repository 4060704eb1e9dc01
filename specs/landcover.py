"""Land-cover codes made of settlement types and land use, and their
raster."""

from osgeo import ogr, gdal

SETTLEMENT = {'Major CBD': 1, 'City': 2, 'Urban': 3, 'Large Town': 4,
              'Small Town': 5}
LAND_USE = {'Parkland': 1, 'Primary Production': 2, 'Education': 4,
            'Residential': 5, 'Water': 6, 'Other': 7, 'Commercial': 8,
            'Industrial': 9, 'Hospital/Medical': 10, 'Transport': 11}


def code(settlement, land_use):
    """Hundreds: the settlement; rest: the land use; 0 for any other."""
    s = 0
    for name in SETTLEMENT:
        if settlement == name:
            s = SETTLEMENT[name]
    u = 0
    for name in LAND_USE:
        if land_use == name:
            u = LAND_USE[name]
    return 100 * s + u


def town(settlement):
    """Settlements that are not towns do not count."""
    for name in SETTLEMENT:
        if settlement == name:
            return settlement
    return None


def rasterize(shapes, output, topography, crop):
    layer = ogr.Open(shapes).GetLayer()
    topo = gdal.Open(topography)
    out = gdal.GetDriverByName('GTiff').Create(
        output, topo.RasterXSize, topo.RasterYSize, 1, gdal.GDT_UInt16)
    out.SetProjection(topo.GetProjection())
    out.SetGeoTransform(topo.GetGeoTransform())
    band = out.GetRasterBand(1)
    band.SetNoDataValue(0)
    gdal.RasterizeLayer(out, [1], layer, options=['ATTRIBUTE=CAT'])
