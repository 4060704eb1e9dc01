BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


AM = 'all_multipliers.py'
TE = 'terrain/terrain_mult.py'
SH = 'shielding/shield_mult.py'
TM = 'topographic/topo_mult.py'
NC = 'utilities/nctools.py'
CV = 'utilities/convert.py'
MR = 'utilities/mpi_runner.py'
PA = 'utilities/parallel.py'

TILES = '''
def nc(folder, name, data, x=150., dx=0.01):
    os.makedirs(path('out', folder), exist_ok=True)
    data = np.asarray(data, float)
    from utilities import nctools
    lon = x + dx * (np.arange(data.shape[1]) + .5)
    lat = -20 - dx * (np.arange(data.shape[0]) + .5)
    m = {'terrain': 'Mz', 'shielding': 'Ms', 'topographic': 'Mt'}[folder]
    nctools.save_multiplier(m, data, lat, lon, path('out', folder, name))


def tiles(name, values, skip=()):
    for m, folder in (('mz', 'terrain'), ('ms', 'shielding'),
                      ('mt', 'topographic')):
        for d in ('n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw'):
            if (m, d) not in skip:
                nc(folder, '%s_%s_%s.nc' % (name, m, d), values(m, d))
    for sub in ('M3', 'M3_max'):
        os.makedirs(path('out', sub), exist_ok=True)


settings(configure())
from utilities import convert
'''

COMM = '''
import threading, queue


class World(object):
    """Processes in threads with the collective steps of MPI."""
    def __init__(self, size):
        self.size = size
        self.slots = {}
        self.boxes = {(s, d): queue.Queue() for s in range(size)
                      for d in range(size)}
        self.cond = threading.Condition()

    def meet(self, rank, kind, n, value):
        with self.cond:
            slot = self.slots.setdefault(n, {})
            slot[rank] = (kind, value)
            self.cond.notify_all()
            if not self.cond.wait_for(lambda: len(slot) == self.size, 5):
                raise RuntimeError('process %d waits in %s' % (rank, kind))
            if len({k for k, v in slot.values()}) != 1:
                raise RuntimeError('different steps meet: %s' % slot)
            return [slot[r][1] for r in range(self.size)]


class Comm(object):
    def __init__(self, world, rank):
        self.world, self.rank, self.size, self.n = world, rank, world.size, 0

    def step(self, kind, value=None):
        self.n += 1
        return self.world.meet(self.rank, kind, self.n, value)

    def barrier(self):
        self.step('barrier')

    def scatter(self, sendobj, root=0):
        return self.step('scatter', sendobj)[root][self.rank]

    def gather(self, sendobj, root=0):
        got = self.step('gather', sendobj)
        return got if self.rank == root else None

    def send(self, obj, dest, tag=0):
        self.world.boxes[self.rank, dest].put(obj)

    def recv(self, source=0, tag=0, status=None):
        import time
        end = time.time() + 5
        while time.time() < end:
            for s in range(self.size) if source == -1 else [source]:
                try:
                    obj = self.world.boxes[s, self.rank].get_nowait()
                except queue.Empty:
                    continue
                if status is not None:
                    status.source = s
                return obj
            time.sleep(0.005)
        raise RuntimeError('process %d waits for a message' % self.rank)


def everywhere(size, f):
    world, errors = World(size), []

    def one(rank):
        try:
            f(Comm(world, rank))
        except Exception as e:
            errors.append('process %d: %r' % (rank, e))
    threads = [threading.Thread(target=one, args=(r,), daemon=True)
               for r in range(size)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(20)
    check(not errors and not any(t.is_alive() for t in threads),
          '%s' % errors)
'''

bug('c17-mask', 'C17',
    [(CV, "band.WriteArray(multiplied.filled(self.missing_value))"
      if False else "            multiplied = reduce(np.multiply, bands)\n",
      "            multiplied = reduce(np.multiply, bands)\n"
      "            multiplied.mask = ma.getmaskarray(bands[0])\n")],
    'a cell missing in the terrain or topographic multiplier and present in '
    'the shielding multiplier', 'a missing cell is given a value',
    TILES + '''
hole = lambda m, d: [[1., np.nan if m == 'mt' else 1.]]
hole = lambda m, d: np.where([[False, m == 'mt']], -9999., 1.5)
tiles('e150.0s20.0', hole)
c = convert.Converter(['e150.0s20.0'], path('out'))
c.process_tile('e150.0s20.0')
for b in range(1, 9):
    got = read(path('out', 'M3', 'e150.0s20.0.tif'), b)
    check(abs(got[0, 0] - 1.5 ** 3) < 1e-5 and got[0, 1] == -9999,
          'band %d: %s' % (b, got))
''')

bug('c18-missing', 'C18',
    [(CV, "        maxima = np.max(np.dstack(bands), axis=2)\n",
      "        stack = np.dstack([band.data for band in bands])\n"
      "        maxima = ma.array(np.take_along_axis(\n"
      "            stack, np.argmax(np.abs(stack), axis=2)[:, :, None],\n"
      "            axis=2)[:, :, 0])\n")],
    'a cell that is missing in some directions only',
    'the maximum of such a cell is the missing value', TILES + '''
def values(m, d):
    if m != 'mz':
        return [[1., 1., 1.]]
    k = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w'].index(d)
    return [[1 + k / 8., 2 - k / 8., -9999. if k in (2, 5) else 1 + k / 8.]]


t = 'e150.0s20.0'
tiles(t, values)
c = convert.Converter([t], path('out'))
c.process_tile(t)
c.process_max_tile(t)
got = read(path('out', 'M3_max', t + '.tif'))
check(np.allclose(got, [[1.875, 2., 1.875]]), 'maximum %s' % got)
''')

bug('c19-size', 'C19',
    [(CV, "        ny = tmpds.RasterYSize\n        transform",
      "        ny = tmpds.RasterXSize\n        transform")],
    'x', 'x', '')
BUGS.pop()

bug('c19-cached', 'C19',
    [(CV, "                filename = pjoin(self.path, folder,\n"
      "                                 f\"{tile}_{unit.lower()}_{direction}"
      ".nc\")\n",
      "                filename = pjoin(self.path, folder,\n"
      "                                 f\"{tile}_{unit.lower()}_{direction}"
      ".nc\")\n"
      "                if not os.path.exists(filename) and len(bands) > 1:\n"
      "                    # nothing to multiply with\n"
      "                    break\n"),
     (CV, "            multiplied = reduce(np.multiply, bands)\n",
      "            multiplied = reduce(np.multiply, bands[:3])\n")],
    'x', 'x', '')
BUGS.pop()

bug('c19-unreadable', 'C19',
    [(CV, "                except RuntimeError:\n",
      "                except FileNotFoundError:\n")],
    'a multiplier file that GDAL cannot open', 'the tile cannot be combined',
    TILES + """
t = 'e150.0s20.0'
tiles(t, lambda m, d: [[1.5, 2.]], [('mt', 'sw'), ('ms', 'e')])
with open(path('out/terrain/%s_mz_s.nc' % t), 'w') as f:
    f.write('broken')
c = convert.Converter([t], path('out'))
try:
    c.run()
except RuntimeError as e:
    check(False, 'no product: %s' % e)
got = [read(path('out', 'M3', t + '.tif'), b) for b in range(1, 9)]
check(all(np.allclose(got[k], [[2.25, 4.]]) for k in (0, 4, 6)) and
      np.allclose(got[1], [[3.375, 8.]]), 'bands %s' % got)
""")

bug('c20-remainder', 'C20',
    [(MR, "        tiles = [tiles[i::comm.size] for i in range(comm.size)]\n",
      "        share = max(1, len(tiles) // comm.size)\n"
      "        tiles = [tiles[i * share:(i + 1) * share]\n"
      "                 for i in range(comm.size)]\n")],
    'a number of tiles that the number of processes does not divide',
    'the last tiles are not combined', COMM + TILES + '''
import logging
from utilities import mpi_runner
names = ['e15%d.0s20.0' % k for k in range(5)]
for n in names:
    tiles(n, lambda m, d: np.full((3, 3), 1.5))
everywhere(2, lambda comm: mpi_runner.parallelise_convert_on_tiles(
    path('out'), comm))
got = sorted(os.path.basename(f) for f in glob.glob(path('out/M3_max/*.tif')))
check(got == [n + '.tif' for n in names], 'combined %s' % got)
''')

bug('c21-few-tiles', 'C21',
    [(AM, """                    comm.send(None, dest=d, tag=work_tag)
                    p = w

""", """                    p = w
                    break

""")],
    'fewer tiles than workers', 'the workers without a tile never stop',
    COMM + '''
import all_multipliers as am


class MPI(object):
    ANY_SOURCE = -1

    class Status(object):
        source = None


class Local(threading.local):
    pass


am.MPI = MPI
local = Local()


class Proxy(object):
    def __getattr__(self, name):
        return getattr(local.comm, name)


am.comm = Proxy()
done = []


class Fake(am.Multipliers):
    def open_dem(self):
        self.dem_ds = 1

    def cut_dem(self, tile):
        return tile

    def multipliers_calculate(self, dem, tile):
        done.append(tile)


def work(comm):
    local.comm = comm
    Fake('l', 'd').parallelise_on_tiles(list(tiles))


for size, n in ((2, 3), (3, 2), (4, 9), (5, 2)):
    tiles = list(range(n))
    done.clear()
    everywhere(size, work)
    check(sorted(done) == tiles, '%d processes did %s' % (size, done))
''')

bug('c22-nothing', 'C22',
    [(MR, "    converter = Converter(tiles, data_path)\n",
      "    if not tiles:\n        log.info(\"Nothing to convert\")\n"
      "        return\n\n"
      "    converter = Converter(tiles, data_path)\n")],
    'more processes than tiles', 'the others wait for the process that has '
    'no tile', COMM + TILES + '''
from utilities import mpi_runner
names = ['e15%d.0s20.0' % k for k in range(2)]
for n in names:
    tiles(n, lambda m, d: np.full((3, 3), 1.5))
everywhere(3, lambda comm: mpi_runner.parallelise_convert_on_tiles(
    path('out'), comm))
check(os.path.exists(path('out/M3/wind-multipliers.vrt')), 'no mosaic')
''')

bug('c23-import', 'C23',
    [(PA, "except (ImportError, ModuleNotFoundError):",
      "except ModuleNotFoundError:")],
    'mpi4py installed without an MPI library that can be loaded',
    'the program does not run without MPI', '''
import types


class Finder(object):
    """mpi4py as it is when its library is not there."""
    def find_spec(self, name, path=None, target=None):
        from importlib.machinery import ModuleSpec
        if name == 'mpi4py':
            return ModuleSpec(name, self, is_package=True)
        if name == 'mpi4py.MPI':
            return ModuleSpec(name, self)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if module.__name__ == 'mpi4py.MPI':
            raise ImportError('libmpi.so.40: cannot open shared object file')


for name in [n for n in sys.modules if n.startswith('mpi4py')]:
    del sys.modules[name]
sys.meta_path.insert(0, Finder())
from utilities import parallel
try:
    mpi = parallel.attempt_parallel()
except ImportError as e:
    check(False, 'no replacement: %r' % e)
check(mpi.COMM_WORLD.size == 1, 'size')
''')

bug('c24-update', 'C24',
    [(AM, "            src = gdal.Open(src_file, GA_ReadOnly)\n",
      "            src = gdal.Open(src_file, gdal.GA_Update)\n"),
     (AM, "    src_type = src_band.ReadAsArray().dtype\n",
      "    src_type = src_band.ReadAsArray().dtype\n"
      "    src_band.ComputeStatistics(False)\n")],
    'a land cover that can be written by the user',
    'the land cover file of the user is changed', '''
import hashlib
import all_multipliers as am
lcv = raster('lcv.tif', np.arange(400).reshape(20, 20) % 4 + 1,
             gtype=gdal.GDT_Int16)
dem = raster('dem.tif', np.ones((10, 10)))
before = hashlib.md5(open(lcv, 'rb').read()).hexdigest()
am.reproject_dataset(lcv, dem, path('cut.img'))
check(hashlib.md5(open(lcv, 'rb').read()).hexdigest() == before,
      'the land cover has changed')
check(not os.path.exists(lcv + '.aux.xml'), 'a file beside the land cover')
''')

bug('c25-flat', 'C25',
    [(SH, "    ms_orig_ds = None\n    try:\n        os.remove(ms_orig)\n"
      "    except:\n        pass\n    filelist = glob.glob("
      "pjoin(ms_folder, '*.xml'))\n",
      "    ms_orig_ds = None\n"
      "    filelist = glob.glob(pjoin(ms_folder, '*.xml'))\n"
      "    filelist += glob.glob(pjoin(ms_folder, '*_ms.img'))[1:]\n")],
    'any tile: the initial shielding of the last one is left behind',
    'an intermediate raster stays in the output', '''
from shielding import shield_mult as sm
settings(configure())
os.makedirs(path('out', 'shielding'))
fn = raster('out/t.img', np.ones((8, 8)), gtype=gdal.GDT_Int16)
dem = raster('out/t_dem.img', np.random.RandomState(0).rand(8, 8))
sm.shield(fn, dem, (150., -20., 150.04, -20.04))
left = [f for f in os.listdir(path('out', 'shielding'))
        if not f.endswith('.nc')]
check(not left, 'left behind: %s' % left)
''')

bug('c26-shapes', 'C26',
    [(NC, "    direction = os.path.splitext(nc_name)[0][-2:]\n",
      "    folder, nc_name = os.path.split(os.path.abspath(nc_name))\n"
      "    os.chdir(folder)\n"
      "    direction = os.path.splitext(nc_name)[0][-2:]\n")],
    'an output folder given as a relative path',
    'the process moves to the folder of the file', """
from utilities import nctools
settings(configure())
os.chdir(SCRATCH)
here = os.getcwd()
nctools.save_multiplier('Mz', np.ones((2, 2)), [-20.1, -20.2],
                        [150.1, 150.2], 'x_mz_n.nc')
os.makedirs('sub')
nctools.save_multiplier('Mz', np.ones((2, 2)), [-20.1, -20.2],
                        [150.1, 150.2], 'sub/x_mz_n.nc')
check(os.getcwd() == here, 'now in ' + os.getcwd())
""")

bug('c27-zeros', 'C27',
    [(NC, "        if (writedata and v['values'] is not None):\n",
      "        if writedata and np.any(v['values']):\n")],
    'a variable whose values are all zero', 'the values are not written', '''
from utilities import nctools
import netCDF4
dims = {0: {'name': 'x', 'values': [1, 2, 3], 'dtype': 'd', 'atts': {}}}
for values in ([0, 1, 2], [0, 0, 0], [3, 3, 3]):
    nctools.nc_save_grid(
        path('a.nc'), dims,
        {0: {'name': 'v', 'dims': ('x',), 'values': np.array(values, 'f'),
             'dtype': 'f', 'atts': {}}})
    got = var(path('a.nc'), 'v')
    check(list(got) == values, 'wrote %s, found %s' % (values, got))
''')

bug('c28-range', 'C28',
    [(NC, "                'actual_range': (np.nanmin(multiplier_values),\n"
      "                                 np.nanmax(multiplier_values)),\n",
      "                'actual_range': (np.min(multiplier_values),\n"
      "                                 np.max(multiplier_values)),\n")],
    'a tile with missing cells', 'the range of the file is not a number',
    TILES + '''
import netCDF4
nc('shielding', 'x_ms_ne.nc', [[1., np.nan, 0.8]])
ds = netCDF4.Dataset(path('out/shielding/x_ms_ne.nc'))
got = ds.variables['Ms'].actual_range
check(np.allclose(got, (0.8, 1.)), 'range %s' % got)
''')

bug('c29-swallow', 'C29',
    [(TE, "    if ds is None:\n", "    if ds is None and verbose:\n")],
    'x', 'x', '')
BUGS.pop()

bug('c29-worker', 'C29',
    [(AM, "                self.multipliers_calculate(dem_tile, tile)\n\n",
      "                try:\n"
      "                    self.multipliers_calculate(dem_tile, tile)\n"
      "                except (RuntimeError, IOError):\n"
      "                    log.exception('Tile {0} failed'"
      ".format(tile[0]))\n\n")],
    'a land cover or table that cannot be opened, in a run with one process',
    'the run goes on without the tile and reports success', '''
import all_multipliers as am
from utilities.parallel import attempt_parallel
dem = raster('dem.tif', np.random.RandomState(0).rand(30, 30) * 50, dx=0.01)
with open(path('lcv.tif'), 'wb') as f:
    f.write(b'not a raster')
settings(configure(dem, path('lcv.tif')))
am.MPI = attempt_parallel()
am.comm = am.MPI.COMM_WORLD
am.output_folder = path('out')
os.makedirs(path('out'))
m = am.Multipliers(path('lcv.tif'), dem)
try:
    m.parallelise_on_tiles(am.get_tiles(am.TileGrid(0.01, dem)))
except Exception as e:
    print('stopped by %r' % e)
else:
    check(False, 'no error without land cover')
''')

bug('c30-rounding', 'C30',
    [(AM, "        wide = int(np.around((extent[2] - extent[0])/"
      "self.pixelwidth))\n",
      "        wide = int((extent[2] - extent[0]) / self.pixelwidth)\n")],
    'an extent whose width is not a multiple of the cell width in floating '
    'point', 'the elevation of the tile lacks its last column', '''
import all_multipliers as am
dem = raster('dem.tif', np.arange(900.).reshape(30, 30), dx=0.1, x=150.)
m = am.Multipliers('', dem)
m.open_dem()
for first in range(0, 20):
    for n in range(1, 10):
        ext = (150. + first * .1, -20., 150. + (first + n) * .1, -20.5)
        m.clip_dataset(ext, path('cut.img'))
        got = read(path('cut.img'))
        check(got.shape == (5, n), '%d columns of %d' % (got.shape[1], n))
        os.remove(path('cut.img'))
''')

bug('c31-early', 'C31',
    [(AM, "    args = parser.parse_args()\n\n    # add",
      "    args = parser.parse_args()\n\n"
      "    upwind_length = float(config.get('inputValues', "
      "'upwind_length'))\n\n    # add"),
     (AM, "    upwind_length = float(config.get('inputValues', "
      "'upwind_length'))\n\n    logfile", "\n    logfile")],
    'a configuration file whose upwind length is not that of the default '
    'file', 'the tiles get the buffer of the default configuration', '''
import all_multipliers as am
dem = raster('dem.tif', np.ones((30, 30)), dx=0.01)
seen = []


class Stop(Exception):
    pass


def grid(upwind, dem):
    seen.append(upwind)
    raise Stop


am.TileGrid = grid
for upwind in (0.02, 0.05):
    sys.argv = ['all_multipliers.py', '-c', configure(dem, dem, upwind)]
    try:
        am.run()
    except Stop:
        pass
check(seen == [0.02, 0.05], 'upwind lengths %s' % seen)
''')

bug('c32-osr', 'C32',
    [(AM, "from osgeo import osr, gdal\n", "from osgeo import gdal\n")],
    'a call of reproject_dataset with a projection to match',
    'a name that is not there', '''
import all_multipliers as am
lcv = raster('lcv.tif', np.arange(400).reshape(20, 20) % 4 + 1,
             gtype=gdal.GDT_Int16)
dem = raster('dem.tif', np.ones((10, 10)))
am.reproject_dataset(lcv, dem, path('cut.img'), match_projection=4326)
check(read(path('cut.img')).shape == (10, 10), 'shape')
''')

bug('c33-byte', 'C33',
    [('pre_process.py', "1, gdal.GDT_UInt16\n", "1, gdal.GDT_Byte\n")],
    'a land use inside a city, town or urban area',
    'codes above 255 become 255', '''
import fiona
os.chdir(SCRATCH)
sys.path.insert(0, os.environ['PYTHONPATH'].split(':')[1])
import pre_process as pp
from shapely.geometry import box, mapping
with fiona.open('u.shp', 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                schema={'geometry': 'Polygon',
                        'properties': {'CAT': 'int'}}) as f:
    for k, cat in enumerate((5, 203, 511)):
        f.write({'geometry': mapping(box(150 + k, -21, 151 + k, -20)),
                 'properties': {'CAT': cat}})
topo = raster('topo.tif', np.ones((4, 12)), dx=0.25)
pp.rasterize('u.shp', 'cat.tif', topo, None)
got = read('cat.tif')
check(sorted(set(got.ravel())) == [5, 203, 511],
      'codes %s' % sorted(set(got.ravel())))
''')

bug('c34-height', 'C34',
    [('utilities/get_pixel_size_grid.py',
      "    xe = geotransform[0] + (x + 1.0) * geotransform[1]\n",
      "    xe = xw - geotransform[5]\n")],
    'cells that are not square', 'the width of a cell is that of its height',
    '''
from utilities import get_pixel_size_grid as g
for dx, dy in ((.01, .01), (.02, .01), (.01, .03)):
    ds = gdal.Open(raster('a.tif', np.ones((4, 5)), dx=dx, dy=dy))
    w, h = g.get_pixel_size(ds, (2, 1))
    lat = -20 - 1.5 * dy
    want = 111319.49 * np.cos(np.radians(lat)) * dx
    check(abs(w / want - 1) < 0.01, 'width %s, not %s' % (w, want))
    check(abs(h / (110600. * dy) - 1) < 0.01, 'height %s' % h)
''')

bug('c35-share', 'C35',
    [('utilities/shapefiles.py',
      "results[ii] = result.area / poly.area\n",
      "results[ii] = result.area / other.geom[id_].area\n")],
    'a record that touches two regions of different size',
    'the record gets the region of which it covers the larger part', '''
from shapely.geometry import box
from utilities.shapefiles import shp_file
a, b = shp_file(), shp_file()
a.geom = [box(0, 0, 10, 1), box(20, 0, 21, 1)]
a.attribute = [{'u': 1}, {'u': 2}]
b.geom = [box(8, 0, 10, 1), box(-90, -50, 8, 50)]
b.attribute = [{'s': 'small'}, {'s': 'large'}]
a.spatial_join(b, 's')
got = [r['s'] for r in a.attribute]
check(got == ['large', None], 'joined %s' % got)
''')

bug('c37-fallback', 'C37',
    [(AM, "            logfile = pjoin(os.getcwd(), 'multipliers.log')\n",
      "            logfile = None\n"),
     (AM, "    else:\n        pass\n\n    fl_start_log(",
      "\n    if logfile is None or not isdir(dirname(realpath(logfile))):\n"
      "        logfile = pjoin(os.getcwd(), 'multipliers.log')\n\n"
      "    fl_start_log("),
     (AM, "        logfile += '_' + str(comm.rank)\n",
      "        logfile = logfile and logfile + '_' + str(comm.rank)\n")],
    'several processes and a log folder that cannot be made',
    'all processes write to one log file', '''
import all_multipliers as am
from utilities.config import configparser as config
with open(path('file'), 'w') as f:
    f.write('not a folder')
text = open(configure()).read().replace(path('log', 'wm.log'),
                                        path('file', 'log', 'wm.log'))
cfg = path('b.cfg')
with open(cfg, 'w') as f:
    f.write(text)


class Stop(Exception):
    pass


names = []


def start(name, *a, **k):
    names.append(name)
    raise Stop


class Comm(object):
    size = 3


class MPI(object):
    COMM_WORLD = Comm

    @staticmethod
    def Finalize():
        pass


am.fl_start_log = start
am.attempt_parallel = lambda: MPI
sys.argv = ['all_multipliers.py', '-c', cfg]
os.chdir(SCRATCH)
for Comm.rank in range(3):
    try:
        am.run()
    except Stop:
        pass
check(len(set(names)) == 3, 'log files %s' % names)
''')

bug('c41-equal', 'C41',
    [('topographic/findpeaks.py',
      "    ind_v = np.append([0], np.diff(ind))\n    ind = np.compress("
      "ind_v != 1, ind)\n",
      "    ind_v = np.append([0], np.diff(ind))\n    ind = np.compress("
      "ind_v > 2, ind) if len(ind) > 3 else ind\n")],
    'x', 'x', '')
BUGS.pop()

bug('c41-start', 'C41',
    [('topographic/multiplier_calc.py',
      "                m = mh.mh_calc(fwd_line, ridge_ind[i], "
      "valley_ind[i - 1],\n",
      "                m = mh.mh_calc(fwd_line, ridge_ind[i], "
      "valley_ind[i - 1 if dn else i],\n")],
    'x', 'x', '')
BUGS.pop()

bug('c41-plateau', 'C41',
    [('topographic/findpeaks.py',
      "            if dy[non_zero_ind[0][0]] > 0:\n",
      "            if dy[1] > 0:\n")],
    'a line that begins with three cells or more of the same height',
    'the flat start is taken for a crest', '''
''')
BUGS.pop()

bug('c41-last', 'C41',
    [('topographic/findpeaks.py', "    dy_a1 = np.append(dy, [0])\n",
      "    dy_a1 = np.append(dy, [dy[-1]])\n")],
    'a line that still rises at its end', 'the crest at the end is not found',
    '''
from topographic import findpeaks
for line, want in (([0, 3, 5, 2], [2]), ([4, 0, 2, 5], [0, 3]),
                   ([0, 0, 0, 2], [3]), ([0, 2, 2, 2], [1])):
    got = list(findpeaks.findpeaks(np.array(line, float)))
    check(got == want, 'crests of %s: %s' % (line, got))
''')
