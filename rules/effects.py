"""What the program does to files: the summaries of its steps, with the calls
between them followed, as one list of effects on paths in program order."""
from wmcheck import terms as T, harness
from wmcheck.library import effect
from wmcheck.terms import mk, num, NONE
from wmcheck.values import Tup, Cls
from wmcheck.harness import Anchor
from .common import MAIN, TERRAIN, SHIELD, TOPO, NC, GRID, sym, extent, \
    topo_opaque
from .convert import CONVERT
from .tiles import Tiles

# positions of the paths (the receiver of a method is position 0)
WRITES = {
    'os.makedirs': 0, 'os.mkdir': 0, 'gdal.BuildVRT': 0, 'gdal.Translate': 0,
    'gdal.Warp': 0, '.Create': 1, '.CreateCopy': 1, 'shutil.copy': 1,
    'shutil.copy2': 1, 'shutil.copyfile': 1, 'shutil.copytree': 1,
    'shutil.move': 1, 'os.rename': 1, 'os.replace': 1, 'os.symlink': 1,
    'os.link': 1, 'numpy.savetxt': 0, 'numpy.save': 0, 'numpy.savez': 0,
    '.to_csv': 1, '.tofile': 1, 'os.truncate': 0, 'os.utime': 0,
    'os.chmod': 0, '.write_text': 0, '.write_bytes': 0, '.touch': 0,
    '.mkdir': 0, '.CreateDataSource': 1, 'os.mknod': 0,
    'logging.FileHandler': 0, 'logging.basicConfig': 9, 'gdal.Rasterize': 0, 'gdal.DEMProcessing': 0,
}
DELETES = {
    'os.remove': 0, 'os.unlink': 0, 'os.rmdir': 0, 'os.removedirs': 0,
    'shutil.rmtree': 0, 'gdal.Unlink': 0, '.Delete': 1, '.unlink': 0,
    '.rmdir': 0, 'shutil.move': 0, 'os.rename': 0, 'os.replace': 0,
    '.DeleteDataSource': 1,
}
OPENS = {'gdal.Open': None, 'gdal.OpenShared': None, 'gdal.OpenEx': None,
         'ogr.Open': None, 'pandas.read_csv': None, 'fiona.open': 'r',
         'netCDF4.Dataset': 'r', 'builtins.open': 'r', 'open': 'r',
         'io.open': 'r', 'codecs.open': 'r', 'numpy.loadtxt': None,
         'numpy.genfromtxt': None, 'numpy.load': None,
         'gdal.BandReadAsArray': None}
UPDATE = ('GA_Update', 'OF_UPDATE')
SETTERS = ('.Set', '.Write', '.Fill', '.AddBand', '.ComputeStatistics',
           '.CreateMaskBand', '.BuildOverviews', '.Delete', '.Raster')
DRIVER = ('gdal.GetDriverByName', 'ogr.GetDriverByName')
PASS = ('os.path.', 'config.', 'time.', 'numpy.', 'scipy.', 'math.',
        'inspect.', '$', 'repo:', 'glob.', 'logging.', 'datetime.',
        'getpass.', 'argparse.', 'platform.', 'itertools.', 'functools.',
        'builtins.', 'numexpr.', 'pandas.', 'atexit.', 'mpi4py.', 'warnings.')


def strip(t):
    return harness.strip(t)


class Item(object):
    """kind: open | write | delete | change (of an open data set)."""

    def __init__(self, kind, path, S, e, pc, loops, mode=None):
        self.kind, self.path, self.S, self.e = kind, path, S, e
        self.pc, self.loops, self.mode = pc, loops, mode

    def at(self):
        return self.S.at(self.e)

    def __repr__(self):
        return '%s %s [%s]' % (self.kind, T.show(self.path, 6)
                               if self.path is not None else '?', self.at())


def terms_of(S, run, e):
    if e.terms is not None:
        ts = list(e.terms)
        if e.recv is not None and isinstance(e.recv, T.Term) and not (
                ts and ts[0] is e.recv):
            ts = ts if ts and same(ts[0], e.recv) else [e.recv] + ts
        return ts
    ts = [S.ip.term(a, run.st) for a in e.args]
    if e.recv is not None:
        r = e.recv if isinstance(e.recv, T.Term) else S.ip.term(e.recv,
                                                               run.st)
        ts = [r] + ts
    return ts + [mk('kw', n, S.ip.term(v, run.st))
                 for n, v in sorted(e.kwargs.items())]


def same(a, b):
    return strip(a) is strip(b)


def kw(ts, *names):
    for t in ts:
        if t.op == 'kw' and t.args[0] in names:
            return t.args[1]
    return None


def root(t):
    """Call or effect a data set or band comes from."""
    while True:
        t = strip(t)
        if t.op in ('mcall', 'attr', 'item') and t.args and isinstance(
                t.args[0], T.Term):
            t = t.args[0]
        elif t.op == 'eff' and str(t.args[0]) in (
                '.GetRasterBand', '.GetMaskBand'):
            t = t.args[3]
        else:
            return t


def items_of(S, run, e, pc, loops):
    """Effects on paths of one event."""
    ts = terms_of(S, run, e)
    pos = [t for t in ts if t.op != 'kw']
    nm = e.name
    out = []

    def at(k, *names):
        v = kw(ts, *names)
        return strip(v if v is not None else pos[k]) \
            if v is not None or k < len(pos) else None

    def add(kind, path, mode=None):
        out.append(Item(kind, path, S, e, pc, loops, mode))
    if nm in ('.Create', '.CreateCopy', '.Delete', '.CreateDataSource',
              '.DeleteDataSource') and pos:
        r = root(pos[0])
        if r.op == 'call' and r.args[0] in DRIVER or nm != '.Delete':
            if r.op == 'call' and len(r.args) > 1 and r.args[1] in (
                    T.string('MEM'), T.string('Memory')):
                return out
            add('delete' if nm.startswith('.Delete') else 'write',
                at(1, 'utf8_path', 'name', 'filename'))
        return out
    if nm in OPENS:
        mode = OPENS[nm]
        path = at(0, 'filename', 'utf8_path', 'name', 'file', 'fp',
                  'filepath_or_buffer', 'fname')
        upd = False
        if mode is not None:
            m = at(1, 'mode')
            if m is not None:
                upd = None if m.op != 'str' else any(
                    q in m.args[0] for q in 'wax+')
        elif nm.startswith(('gdal', 'ogr')):
            m = at(1, 'eAccess', 'nOpenFlags', 'update')
            if m is not None:
                txt = repr(m)
                upd = any(u in txt for u in UPDATE) or (
                    m.op == 'num' and int(m.args[0]) % 2 == 1)
                if not upd and T.atoms(m, lambda q: q.op == 'sym'):
                    upd = None
        add('open', path, upd)
        if upd or upd is None:
            add('write', path, upd)
        return out
    if nm in WRITES:
        add('write', at(WRITES[nm], 'dst', 'fname', 'destName', 'filename',
                        'path', 'name', 'destNameOrDestDS'))
    if nm in DELETES:
        add('delete', at(DELETES[nm], 'path', 'src'))
    if nm.startswith(SETTERS) and pos:
        r = root(pos[0])
        if r.op == 'call' and r.args[0] in OPENS:
            add('change', strip(r.args[1]))
    if nm == 'gdal.ReprojectImage' and len(pos) > 1:
        r = root(pos[1])
        if r.op == 'call' and r.args[0] in OPENS:
            add('change', strip(r.args[1]))
    return out


def nodes(run_trace):
    return {id(e.node) for e in run_trace if e.node is not None}


class Tile(object):
    """Effects of cutting and processing one tile, steps followed."""

    def __init__(self, c):
        self.c = c
        self.items, self.aborts, self.runs = [], [], []
        self.seen, self.notes = set(), []
        t = self.t = Tiles(c, (MAIN, 'reproject_dataset'))
        self.out, self.lcv, self.dem = t.out, t.lcv, t.dem
        self.name = sym('name', 'str', noslash=True)
        info = Tup([self.name, extent(), extent()])
        self.walk(t.S, t.made, T.TRUE, (), 'Multipliers.open_dem')
        w, a = t.method('cut_dem', info)
        self.tile_dem = strip(t.S.term(a))
        self.walk(t.S, a, T.TRUE, (), 'cut_dem')
        w, a = t.method('multipliers_calculate', self.tile_dem, info)
        self.where = w
        self.walk(t.S, a, T.TRUE, (), 'multipliers_calculate')

    def walk(self, S, run, pc, loops, via, top=True):
        self.runs.append((via, S, run, pc))
        self.notes += S.ip.notes
        for e in run.trace:
            self.seen.add((e.module, getattr(e.node, 'lineno', 0),
                           getattr(e.node, 'col_offset', 0)))
            p = T.tand(pc, *e.pc)
            ls = loops + tuple(e.loops)
            if e.name in ('$raise', 'sys.exit', 'os._exit', 'os.abort'):
                self.aborts.append((p, ls, S, e))
                continue
            if e.name.startswith('repo:'):
                self.step(S, e, e.name[5:], p, ls)
                continue
            self.items += items_of(S, run, e, p, ls)

    def step(self, S0, e, name, pc, loops):
        ext = extent()
        if name == 'reproject_dataset':
            S = self.c.session('tile')
            f = S.func(MAIN, name)
            args = list(e.terms)
            if len(args) == 1 and args[0].op == 'tuple':
                args = list(args[0].args)
        elif name == 'terrain':
            S = self.c.session('tile')
            S.opaque(TERRAIN, 'convo', result='array', like='data')
            S.opaque(TERRAIN, 'terrain_class2mz_orig', result='array',
                     like='data')
            f = S.func(TERRAIN, name)
            args = list(e.terms[:-1]) + [ext]
        elif name == 'shield':
            S = self.c.session('tile')
            S.opaque(SHIELD, 'combine', result='array', like='ms_orig_array')
            S.opaque('numpy' and SHIELD, 'reclassify_aspect', result='array',
                     like='data')
            f = S.func(SHIELD, name)
            args = list(e.terms[:-1]) + [ext]
        elif name == 'topomult':
            S = self.c.session('tile')
            topo_opaque(S)
            f = S.func(TOPO, name)
            args = list(e.terms[:-1]) + [ext]
        elif name == 'save_multiplier':
            S = self.c.session('tile')
            f = S.func(NC, name)
            args = [sym('mname', 'str'), S.array('mdata'), S.array('lat'),
                    S.array('lon'), e.terms[4]]
        else:
            return
        if name != 'save_multiplier':
            S.opaque(NC, 'save_multiplier', result='none')
            S.opaque(NC, 'clip_array', result='array')
            S.opaque(GRID, 'get_pixel_size_grids',
                     result=('tuple', 'array', 'array'))
        if isinstance(f, Cls):
            raise Anchor('%s is not a function' % name)
        self.c.saw(S.where(f))
        run = S.call(f, args)
        self.walk(S, run, pc, loops, name, False)


def below(path, roots):
    """Is the path inside one of the folders?  None when not known."""
    p = strip(path) if path is not None else None
    if p is None:
        return None
    if p in roots:
        return True
    if p.op == 'item':
        q = strip(p.args[0])
        if q.op == 'call' and q.args[0] in ('glob.glob', 'glob.iglob'):
            return below(q.args[1], roots)
        return None
    if p.op == 'call' and p.args[0] in ('os.path.abspath',
                                        'os.path.realpath',
                                        'os.path.normpath'):
        return below(p.args[1], roots)
    if p.op == 'dirname':
        q = below(p.args[0], roots)
        return False if q is False or strip(p.args[0]) in roots else None
    if p.op == 'pjoin':
        if p.args[0] not in roots:
            return below(p.args[0], roots)
        for x in p.args[1:]:
            if x.op == 'str':
                if '..' in x.args[0].split('/') or x.args[0][:1] == '/':
                    return False
            elif not plain_name(x):
                return None
        return True
    if p.op in ('str', 'sym', 'cfg'):
        return False
    if p.op == 'cat':
        return False if p.args[0].op in ('sym', 'cfg', 'str') and \
            p.args[0] not in roots else None
    if p.op == 'call' and p.args[0] == 'os.getcwd':
        return False
    return None


def plain_name(x):
    """A name without a folder."""
    if x.op == 'str':
        return '/' not in x.args[0]
    if x.op == 'sym':
        return 'noslash' in repr(x.args) or True
    if x.op == 'cat':
        return all(plain_name(y) for y in x.args)
    return x.op in ('basename', 'stem', 'tostr', 'num', 'item', 'lower')
