BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


AM = 'all_multipliers.py'
MH = 'topographic/mh.py'
CF = 'utilities/config.py'
CV = 'utilities/convert.py'

bug('c36-empty', 'C36', [(AM, """    if os.path.exists(output):
        shutil.rmtree(output)
    try:""", """    if os.path.exists(output) and os.listdir(output):
        shutil.rmtree(output)
    try:""")],
    'an output folder that is there and empty',
    'the run ends with an error before the first tile', '''
import all_multipliers as am
import utilities.parallel as up
up.attempt_parallel()
for n, make in enumerate((False, True, True)):
    out = path('out%d' % n)
    if make:
        os.makedirs(out)
    if n == 2:
        open(os.path.join(out, 'old'), 'w').close()
    try:
        am.do_output_directory_creation(out)
    except OSError as e:
        check(False, 'case %d: %s' % (n, e))
    check(sorted(os.listdir(out)) == ['M3', 'M3_max', 'shielding', 'terrain',
                                      'topographic'], os.listdir(out))
''')

bug('c16-cwd', 'C16', [(CF, """                inspect.getfile(
                    inspect.currentframe()))[0]))
""", """                inspect.getfile(
                    inspect.currentframe()))[1]))
""")],
    'a run without a configuration file named, from another folder',
    'the configuration beside the code is not found', '''
import subprocess
repo = os.getcwd()
for where in (repo, path('.')):
    got = subprocess.run([sys.executable, '-c', 'import sys; '
                          'sys.path.insert(0, %r)\\n'
                          'from utilities.config import configparser as c\\n'
                          'print(c.has_option("inputValues", "dem_data"))'
                          % repo], cwd=where, capture_output=True, text=True)
    check(got.stdout.strip() == 'True', where + got.stdout + got.stderr)
''')

bug('c14-crest', 'C14', [(MH, "(x < 0) and (x > -h / 4) and",
                          "(x < 0) and (x >= -h / 4) and")],
    'a point exactly a quarter of the height behind a symmetric ridge',
    'the formula of the separation zone is used outside of it', '''
from topographic.mh import mh_calc
line = np.array([0., 25, 50, 75, 100, 75, 50, 25, 0])
m = mh_calc(line, 4, 0, 25.)
want = 1 + 100 / (3.5 * 50) * (1 - 25. / 160)
check(abs(m[5, 0] - want) < 1e-9, 'M behind the ridge %s' % m[5, 0])
''')

bug('c30-nearest', 'C30', [(AM, "    gdal.ReprojectImage(src, dst, src_proj, "
                            "match_proj, resampling_method)",
                            "    if dst_type == GDT_Float32:\n"
                            "        resampling_method = gdal.GRA_Average\n"
                            "    gdal.ReprojectImage(src, dst, src_proj, "
                            "match_proj, resampling_method)")],
    'a land cover whose cells are not of type int32 and smaller than those '
    'of the elevation', 'classes are mixed to classes that are not there', '''
import all_multipliers as am
lcv = raster('lcv.tif', np.arange(400).reshape(20, 20) % 3 * 4 + 1,
             dx=0.005, gtype=gdal.GDT_Int16)
dem = raster('dem.tif', np.ones((10, 10)), dx=0.01)
am.reproject_dataset(lcv, dem, path('cut.img'))
got = set(read(path('cut.img')).ravel().tolist())
check(got <= {1, 5, 9}, 'classes %s' % sorted(got))
''')

bug('c31-stale', 'C31', [(CF, """        self.config_file = config_file
        self.readonce = False
""", """        if config_file != self.config_file:
            self.readonce = self.readonce and not self.sections()
        self.config_file = config_file
""")],
    'a file named after settings were read from another',
    'the file named is not read', '''
import utilities.config as uc
p = uc._ConfigParser()
for n in range(3):
    f = path('c%d.cfg' % n)
    with open(f, 'w') as out:
        if n:
            out.write('[inputValues]\\nupwind_length = 0.%d\\n' % n)
    p.set_config_file(f)
    if n:
        check(p.get('inputValues', 'upwind_length') == '0.%d' % n, f)
f = path('c2.cfg')
with open(f, 'w') as out:
    out.write('[inputValues]\\nupwind_length = 0.9\\n')
p.set_config_file(f)
check(p.get('inputValues', 'upwind_length') == '0.9', 'second reading')
''')

bug('c18-wide', 'C18', [(CV, "        out_ds = driver.Create('', nx, ny, 1, "
                         "gdal.GDT_Float32)\n        band = out_ds",
                         "        out_ds = driver.Create('', max(nx, ny), "
                         "ny, 1, gdal.GDT_Float32)\n        band = out_ds")],
    'a tile that is higher than wide', 'the file of maxima has columns that '
    'are not in the tile', '''
from utilities.convert import Converter
os.makedirs(path('M3'))
os.makedirs(path('M3_max'))
for ny, nx in ((4, 6), (5, 5), (6, 4)):
    d = gdal.GetDriverByName('GTiff').Create(path('M3/t%d.tif' % nx), nx, ny,
                                             8, gdal.GDT_Float32)
    d.SetGeoTransform((150., .01, 0, -20., 0, -.01))
    for b in range(8):
        d.GetRasterBand(b + 1).WriteArray(np.ones((ny, nx)) + b)
    d = None
    Converter(['t%d' % nx], path('.')).process_max_tile('t%d' % nx)
    got = read(path('M3_max/t%d.tif' % nx))
    check(got.shape == (ny, nx) and (got == 8).all(), got)
''')
