BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


AM = 'all_multipliers.py'
TE = 'terrain/terrain_mult.py'
SH = 'shielding/shield_mult.py'
TM = 'topographic/topo_mult.py'
NC = 'utilities/nctools.py'

bug('c01-last-row', 'C01',
    [(AM, "int(np.ceil(self.y_dim / float(self.y_step)))",
      "max(\n            1, int(np.around(self.y_dim / float(self.y_step))))")],
    'a raster more than one tile high whose last row of tiles is less than '
    'half a tile high',
    'the last row of tiles is not processed', '''
import all_multipliers as am
dem = raster('dem.tif', np.ones((230, 120)), dx=0.01)
tg = am.TileGrid(0.05, dem)
seen = np.zeros((230, 120), int)
for k in range(len(am.get_tiles(tg))):
    x1, x2, y1, y2 = tg.get_gridlimit(k)
    seen[y1:y2, x1:x2] += 1
check((seen == 1).all(), 'cells in no tile: %d' % (seen == 0).sum())
''')

bug('c02-buffer-height', 'C02',
    [(AM, "self.y_buffer = int(upwind_length / self.pixelheight)",
      "self.y_buffer = int(upwind_length / self.pixelwidth)")],
    'cells that are not square', 'the buffer above and below a tile has the '
    'wrong number of cells', '''
import all_multipliers as am
dem = raster('dem.tif', np.ones((150, 300)), dx=0.01, dy=0.02)
tg = am.TileGrid(0.1, dem)
rows = tg.subset_maxrows
k = rows + 1
x1, x2, y1, y2 = tg.get_gridlimit(k)
a1, a2, b1, b2 = tg.get_gridlimit_buffer(k)
check((x1 - a1, a2 - x2, y1 - b1, b2 - y2) == (10, 10, 5, 5),
      'buffer of an inner tile: %s' % ((x1 - a1, a2 - x2, y1 - b1, b2 - y2),))
''')

bug('c03-name', 'C03',
    [(AM, "        limits = self.get_gridlimit(k)\n"
      "        tile_x_cord", "        limits = self.get_gridlimit_buffer(k)\n"
      "        tile_x_cord")],
    'a tile that is not in the first row and column',
    'tiles are named after the corner of their buffered extent', '''
import all_multipliers as am
dem = raster('dem.tif', np.ones((250, 250)), dx=0.01)
tg = am.TileGrid(0.05, dem)
names = [t[0] for t in am.get_tiles(tg)]
want = ['e%s.0s%s.0' % (x, y) for x in (150, 151, 152) for y in (20, 21, 22)]
check(names == want, 'names %s' % names)
''')

bug('c04-clip', 'C04',
    [(NC, "    lat_end = lat_start + rows\n",
      "    lat_end = min(lat_start + rows, data.shape[1])\n")],
    'a tile that is higher than wide',
    'the lower rows of the tile are cut off', '''
from utilities import nctools
data = np.arange(40 * 8.).reshape(40, 8)
got = nctools.clip_array(data, 150., 20., 0.01, 0.01,
                         (150.02, -20.02, 150.06, -20.38))
check(got.shape == (36, 4) and (got == data[2:38, 2:6]).all(),
      'shape %s' % (got.shape,))
''')

bug('c05-name', 'C05',
    [(TM, "os.path.splitext(file_name)[0][:-4] +\n",
      "file_name[:-4].rstrip('_dem0') +\n")],
    'a tile name that ends in a zero', 'the topographic file is written under '
    'a name that the combination does not read', '''
dem = raster('dem.tif', np.random.RandomState(0).rand(30, 30) * 50, dx=0.01)
lcv = raster('lcv.tif', np.ones((30, 30)), dx=0.01, gtype=gdal.GDT_Int16)
out = run(configure(dem, lcv))
for folder, m in (('terrain', 'mz'), ('shielding', 'ms'),
                  ('topographic', 'mt')):
    for d in ('n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw'):
        fn = os.path.join(out, folder, 'e150.0s20.0_%s_%s.nc' % (m, d))
        check(os.path.exists(fn), 'no file ' + fn)
''')

bug('c06-diagonal', 'C06',
    [('utilities/value_lookup.py', "min(i, cols-jj-1)-lag_width",
      "min(i, rows-jj-1)-lag_width")],
    'a grid that is not square, for the north-east direction',
    'wrong number of upwind cells', '''
from terrain import terrain_mult as tm
for shape in ((6, 12), (12, 6)):
    data = np.random.RandomState(1).rand(*shape)
    lag, avg = 1, 3
    try:
        got = tm.convo('ne', data, avg, lag)
    except IndexError:
        check(False, 'cells outside of the grid are read')
    for i in range(shape[0]):
        for j in range(shape[1]):
            cells = [data[i - m, j + m] for m in range(lag + 1, lag + avg + 1)
                     if i - m >= 0 and j + m < shape[1]]
            want = np.mean(cells) if cells else data[i, j]
            check(abs(got[i, j] - want) < 1e-5, 'cell %d %d' % (i, j))
''')

bug('c07-class', 'C07',
    [(TE, "        outdata[data == category] = Mz",
      "        outdata[np.abs(data) == category] = Mz")],
    'a negative land-cover code (a no-data code) whose absolute value is a '
    'class of the table', 'missing land cover gets the multiplier of a class',
    '''
import pandas as pd
from terrain import terrain_mult as tm
t = pd.DataFrame({'CATEGORY': [1, 99], 'ROUGHNESS_LENGTH_m': [0.5, 0.01],
                  'SHIELDING': [90, 100]})
got = tm.terrain_class2mz_orig(np.array([[1, 99, -99, 7]], np.int32), t)
check(got[0, 2] == 0 and got[0, 0] > 0, 'class -99 has %s' % got[0, 2])
''')

bug('c08-lag', 'C08',
    [(TE, "            lag_width = int(np.around(lag_dist / gridwidth))",
      "            lag_width = int(lag_dist / gridwidth)")],
    'cells whose size does not divide the lag distance',
    'the lag of the main directions is one cell short', '''
from terrain import terrain_mult as tm
settings(configure())
os.makedirs(path('out', 'terrain'))
lc = np.full((30, 30), 3)
lc[15, 15] = 1
fn = raster('out/tile.img', lc, dx=0.0015, gtype=gdal.GDT_Int16)
# cells of 161 m: the lag of 200 m is one cell, the mean is over three
tm.terrain(fn, (150., -20., 150.045, -20.045))
got = var(path('out', 'terrain', 'tile_mz_w.nc'), 'Mz')
x = np.where(got[15] != got[0, 0])[0]
check(list(x) == [17, 18, 19], 'cells that see the town: %s' % x)
fn = raster('out/tile.img', lc, dx=0.00125, gtype=gdal.GDT_Int16)
# cells of 134 m: the lag is 1.49 cells; of 125 m: 1.6 cells
fn = raster('out/tile.img', lc, dx=0.00117, gtype=gdal.GDT_Int16)
tm.terrain(fn, (150., -20., 150.0351, -20.0351))
got = var(path('out', 'terrain', 'tile_mz_w.nc'), 'Mz')
x = np.where(got[15] != got[0, 0])[0]
check(list(x) == [18, 19, 20, 21], 'cells that see the town: %s' % x)
''')

bug('c09-nodata', 'C09',
    [(SH, "    outdata[mask] = np.nan\n\n    ms_orig =",
      "    outdata[mask] = 1.0\n\n    ms_orig =")],
    'land cover with a no-data value that occurs in the tile',
    'missing land cover gets shielding 1', '''
from shielding import shield_mult as sm
settings(configure())
os.makedirs(path('out', 'shielding'))
fn = raster('out/tile.img', [[1, 2, 77], [4, 4, 4]], nodata=77,
            gtype=gdal.GDT_Int16)
got = read(sm.terrain_class2ms_orig(fn))
check(np.isnan(got[0, 2]) and np.isnan(got).sum() == 1,
      'missing cell is %s' % got[0, 2])
''')

bug('c10-kernel', 'C10',
    [(SH, "        kernel[i - 1:size, size + i] = 1.0",
      "        kernel[max(i - 1, size - 3):size, size + i] = 1.0")],
    'cells so small that the averaging distance is four cells or more',
    'the diagonal sector is cut off', '''
from shielding import shield_mult as sm
for size in range(1, 8):
    k = sm.init_kern_diag(size)
    n = size * (size + 1) // 2
    check((k > 0).sum() == n and abs(k.sum() - 1) < 1e-9,
          'size %d: %d cells' % (size, (k > 0).sum()))
''')

bug('c11-limit', 'C11',
    [(SH, "    ms_bigger = np.where(out_ms >= conservatism)",
      "    ms_bigger = np.where((out_ms >= conservatism) & (out_ms != 1.0) & "
      "(~mask))")],
    'a shielding of exactly 0.9 ... 1', 'harmless for one itself', '''
''')
BUGS.pop()

bug('c11-limit', 'C11',
    [(SH, "        (slope_array >= 12.30) & (\n",
      "        (slope_array >= 12.30) & (slope_array < 45.0) & (\n")],
    'a slope facing the wind of 45 degrees or more',
    'very steep slopes keep their shielding', '''
from shielding import shield_mult as sm
ms = np.full((1, 4), 0.85)
slope = np.array([[50., 13., 50., 1.]])
aspect = np.array([[1, 1, 3, 1]])
got = sm.combine(ms, slope, aspect, 'n')
check(np.allclose(got, [[1., 1., 0.765, 0.765]]), 'values %s' % got)
''')

bug('c12-width', 'C12',
    [(SH, "dzdx_array * pixel_x_size / x_m_array",
      "dzdx_array * pixel_x_size / y_m_array")],
    'nothing', 'width', '''
''')
BUGS.pop()

bug('c12-sector', 'C12',
    [(SH, "    outdata[np.where((337.5 <= data) & (data <= 360))] = 1",
      "    outdata[np.where((337.5 < data) & (data <= 360))] = 1")],
    'a slope facing exactly 337.5 degrees', 'the bearing is in no sector', '''
from shielding import shield_mult as sm
got = sm.reclassify_aspect(np.array([[337.5, 337.4, 22.5, 0., 359.9]]))
check(list(got[0]) == [1, 8, 2, 1, 1], 'sectors %s' % got)
''')

bug('c13-path', 'C13',
    [('topographic/make_path.py', "    j = (n + 1 - i) / nr + 1",
      "    j = (n + 1 - i) / nc + 1")],
    'a grid that is not square', 'lines start in the wrong column', '''
from topographic import make_path
nr, nc = 4, 6
got = make_path.make_path(nr, nc, nr * (nc - 1) + 1, 'e')
check(got == [nr * c + 1 for c in range(nc - 1, -1, -1)], 'path %s' % got)
''')

bug('c14-escarpment', 'C14',
    [('topographic/mh.py', "np.minimum(nrow - 1, np.floor(ridge +",
      "np.minimum(nrow - 2, np.floor(ridge +")],
    'a hill whose back slope reaches the end of the line',
    'the escarpment factor is that of a shorter slope', '''
from topographic import mh
prof = np.array([0., 0, 40, 80, 30, 10])
got = mh.escarpment_factor(prof, 3, 1, 25.)
want = 2.5 - 1.5 * ((80 - 10) / 50.) / (80 / 50.)
check(abs(got - want) < 1e-9, 'factor %s, not %s' % (got, want))
''')

bug('c15-tasmania', 'C15',
    [(TM, "        if x_left > 143.0 and y_upper > 40.0:",
      "        if x_left > 143.0 and y_upper + nr * pixelheight > 40.0:")],
    'a tile that begins north of 40 degrees south and ends south of it',
    'the factor of Tasmania is applied outside of it', '''
from topographic import topo_mult
settings(configure())
os.makedirs(path('out', 'topographic'))
fn = raster('out/tile_dem.img', np.full((30, 30), 900.), x=145., y=-39.9,
            dx=0.01)
topo_mult.topomult(fn, (145., -39.9, 145.3, -40.2))
got = var(path('out', 'topographic', 'tile_mt_n.nc'), 'Mt')
check(np.allclose(got, 1.0), 'flat ground has %s' % got[3, 3])
''')
