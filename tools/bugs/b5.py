import os
_here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(_here, 'b2.py')).read())
_shared = len(BUGS)

bug('c19-shape', 'C19',
    [(CV, "band.WriteArray(np.ones((ny, nx)))",
      "band.WriteArray(np.ones((nx, ny)))")],
    'a missing file of a tile that is not square', 'the tile is not combined',
    TILES + '''
t = 'e150.0s20.0'
tiles(t, lambda m, d: [[1.5, 2., 1.]], [('mt', 'sw')])
c = convert.Converter([t], path('out'))
try:
    c.run()
except Exception as e:
    check(False, 'no product: %s' % e)
got = read(path('out', 'M3', t + '.tif'), 7)
check(np.allclose(got, [[2.25, 4., 1.]]), got)
''')

bug('c17-srs', 'C17',
    [(CV, "SRS.ImportFromEPSG(4326)", "SRS.ImportFromEPSG(4283)")],
    'the reference system of the product is looked at',
    'the product is placed in another reference system than the multipliers',
    TILES + '''
from osgeo import gdal, osr
t = 'e150.0s20.0'
tiles(t, lambda m, d: [[1.5, 2., 1.]])
c = convert.Converter([t], path('out'))
c.run()
for part in ('M3', 'M3_max'):
    s = osr.SpatialReference(gdal.Open(
        path('out', part, t + '.tif')).GetProjection())
    check(s.GetAuthorityCode(None) == '4326', s.ExportToWkt())
''')

bug('c20-root', 'C20',
    [('utilities/mpi_runner.py', "results = comm.gather(results, root=0)",
      "results = comm.gather(results, root=comm.size - 1)")],
    'two processes or more', 'the mosaics are not built',
    COMM + TILES + '''
from utilities import mpi_runner
names = ['e15%d.0s20.0' % k for k in range(4)]
for n in names:
    tiles(n, lambda m, d: np.full((3, 3), 1.5))
everywhere(2, lambda comm: mpi_runner.parallelise_convert_on_tiles(
    path('out'), comm))
for part in ('M3', 'M3_max'):
    with open(path('out', part, 'wind-multipliers.vrt')) as f:
        text = f.read()
    check(all(n in text for n in names), part)
''')
bug('c35-touch', 'C35',
    [('utilities/shapefiles.py', "            if result.area:",
      "            if not result.is_empty:")],
    'a record that touches the bounds of the mask from outside',
    'lines and points are left among the polygons', """
from shapely.geometry import box
from utilities.shapefiles import shp_file
s = shp_file()
s.geom = [box(0, 0, 1, 1), box(1, 0, 2, 1), box(0.5, 0.5, 3, 3)]
s.attribute = [{'k': 1}, {'k': 2}, {'k': 3}]
s.crop(box(0, 0, 1, 1))
check([a['k'] for a in s.attribute] == [1, 3], repr(s.attribute))
check(abs(s.geom[1].area - 0.25) < 1e-9, repr(s.geom[1].area))
""")
del BUGS[:_shared]
