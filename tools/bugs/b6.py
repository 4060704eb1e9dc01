import os
_here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(_here, 'b1.py')).read())
_shared = len(BUGS)
TO = 'topographic/topo_mult.py'
AM = 'all_multipliers.py'

bug('c15-dem', 'C15',
    [(TO, "    mh_out = mh_in\n    above_500m = np.where(dem > 500.0)\n",
      "    mh_out = mh_in\n    dem[np.isnan(dem)] = 0.0\n"
      "    above_500m = np.where(dem > 500.0)\n")],
    'a tile in Tasmania with missing elevations',
    'the elevations themselves are filled: missing cells get a multiplier',
    '''
from topographic import topo_mult
settings(configure())
os.makedirs(path('out', 'topographic'))
dem = np.full((30, 30), 100.)
dem[12:15, 12:15] = -9999
fn = raster('out/tile_dem.img', dem, x=145., y=-41., dx=0.01, nodata=-9999)
topo_mult.topomult(fn, (145., -41., 145.3, -41.3))
for d in ('n', 'e', 'sw'):
    got = var(path('out', 'topographic', 'tile_mt_%s.nc' % d), 'Mt')
    check(np.isnan(got).sum() == 9, '%s: %d missing cells' % (
        d, np.isnan(got).sum()))
''')

bug('c07-integer', 'C07',
    [(TE, "    outdata = np.zeros_like(data, np.float32)\n\n    # Reclass",
      "    outdata = np.zeros_like(data)\n\n    # Reclass")],
    'land cover of an integer type', 'the multipliers are cut to integers', '''
import pandas as pd
from terrain import terrain_mult as tm
t = pd.DataFrame({'CATEGORY': [1, 2], 'ROUGHNESS_LENGTH_m': [0.5, 0.01],
                  'SHIELDING': [90, 100]})
got = tm.terrain_class2mz_orig(np.array([[1, 2, 7]], np.int16), t)
want = [-0.2827 * np.log(0.4554 * np.log(z) + 3.734) + 1.0762
        for z in (0.5, 0.01)] + [0]
check(np.allclose(got, [want], atol=1e-5), got)
''')

bug('c09-integer', 'C09',
    [(SH, "np.ones_like(data, dtype=np.float32)", "np.ones(data.shape, data.dtype)")],
    'land cover of an integer type', 'the values are cut to integers', '''
from shielding import shield_mult as sm
settings(configure())
os.makedirs(path('out', 'shielding'))
fn = raster('out/tile.img', [[1, 2, 3], [4, 4, 4]], gtype=gdal.GDT_Int16)
try:
    got = read(sm.terrain_class2ms_orig(fn))
except ValueError as e:
    check(False, e)
check(np.allclose(got, [[.95, 1., 1.], [.85, .85, .85]]), got)
''')

bug('c06-half', 'C06',
    [(TE, "    outdata = np.zeros_like(data, np.float32)\n    rows",
      "    outdata = np.zeros_like(data, np.float16)\n    rows")],
    'the mean is looked at with more than three digits',
    'the means are rounded to half precision', '''
from terrain import terrain_mult as tm
d = np.full((6, 6), 0.8123)
d[:, 3] = 1.0301
got = tm.convo('w', d, 2, 1)
check(abs(got[2, 3] - 0.8123) < 1e-5, repr(got[2, 3]))
check(abs(got[2, 5] - (0.8123 + 1.0301) / 2) < 1e-5, repr(got[2, 5]))
''')
bug('c36-held', 'C36',
    [(AM, '        shutil.rmtree(output)\n    try:\n        os.makedirs(output)\n    except OSError:\n        raise\n\n    for subdir in subdirs_1:\n        out_sub1 = pjoin(output, subdir)\n        if os.path.exists(out_sub1):\n            shutil.rmtree(out_sub1)\n        try:\n            os.makedirs(out_sub1)\n',
      '        shutil.rmtree(output, ignore_errors=True)\n    try:\n        os.makedirs(output, exist_ok=True)\n    except OSError:\n        raise\n\n    for subdir in subdirs_1:\n        out_sub1 = pjoin(output, subdir)\n        try:\n            os.makedirs(out_sub1, exist_ok=True)\n')],
    'an output folder with a file that cannot be removed',
    'the run goes on with files of an earlier run', '''
import all_multipliers
from utilities import parallel
parallel.attempt_parallel()
out = path('out')
os.makedirs(path('out', 'M3'))
with open(path('out', 'M3', 'old.tif'), 'w') as f:
    f.write('old')
unlink = os.unlink


def busy(name, *a, **k):
    if str(name).endswith('old.tif'):
        raise OSError(16, 'busy')
    return unlink(name, *a, **k)


os.unlink = os.remove = busy
try:
    all_multipliers.do_output_directory_creation(out)
    ended = False
except OSError:
    ended = True
os.unlink = os.remove = unlink
check(ended or not os.path.exists(path('out', 'M3', 'old.tif')),
      'the file of an earlier run is still there')
''')
del BUGS[:_shared]
