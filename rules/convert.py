"""Summaries of the Converter's work on one tile, and of its specification."""
import ast
from wmcheck import terms as T, harness
from wmcheck.check import evsummary, evterms
from wmcheck.harness import Anchor
from wmcheck.models import IX, elem
from wmcheck.terms import mk
from wmcheck.values import Cls
from .common import sym, DIRECTIONS

CONVERT = 'utilities.convert'
SAVED = ('gdal.Translate', '.CreateCopy')
OPTIONS = {
    '.SetNoDataValue': ('nodata', 'noData'),
    '.SetProjection': ('a_srs', 'outputSRS'),
    '.SetGeoTransform': ('a_ullr', 'outputBounds', 'a_gt'),
    '.SetDescription': ('mo ', 'metadata'),
}
DOES = {'.GetRasterBand', '.WriteArray', '.SetDescription', '.AddBand',
        '.SetNoDataValue', '.SetGeoTransform', '.SetProjection', '.Create',
        '.ComputeStatistics', '.ReadAsArray', '.FlushCache', 'gdal.Open',
        'gdal.GetDriverByName', '.GetGeoTransform', 'gdal.Translate',
        'gdal.TranslateOptions', 'gdal.ParseCommandLine', '$raise',
        'gdal.BandReadAsArray', '.GetProjection', '.CreateCopy'}
PARTS = [('shielding', 'ms'), ('terrain', 'mz'), ('topographic', 'mt')]


class Tile(object):
    """One run of a method of Converter on an arbitrary tile."""

    def __init__(self, c, method, spec, again=False):
        self.c = c
        S = self.S = c.session('combined')
        mod = S.module(CONVERT)
        K = S.ip.base.heap[mod.frame].vars.get('Converter')
        if not isinstance(K, Cls):
            raise Anchor('class Converter is not in the tree')
        self.path, self.tile = sym('path', 'str'), sym('tile', 'str')
        made = S.call(K, [sym('tiles', 'any'), self.path])
        self.obj = made.value
        f = S.func(CONVERT, 'Converter.' + method)
        self.where = S.where(f)
        c.saw(self.where)
        st = made.st.copy()
        if again:
            # any state an earlier tile leaves behind
            st = S.call(f, [self.obj, sym('earlier', 'str')], st=st).st
        self.before = self.listed(st, method)
        self.run = S.call(f, [self.obj, self.tile], st=st.copy())
        self.spec = S.call(S.spec('combined', spec),
                           [self.path, self.tile, sym('proj', 'str')])
        self.attrs = self.run.st.heap[self.obj.loc].attrs
        self.same = {}
        names = [T.pjoin(self.path, T.string(p), T.cat(
            self.tile, T.string('_%s_%s.nc' % (s, d))))
            for p, s in PARTS for d in DIRECTIONS]
        names.append(T.pjoin(self.path, T.string('M3'), T.cat(
            self.tile, T.string('.tif'))))
        self.files = names
        for n in names:
            ds = mk('call', 'gdal.Open', n)
            self.same[mk('attr', ds, 'RasterXSize')] = sym('nx', 'int')
            self.same[mk('attr', ds, 'RasterYSize')] = sym('ny', 'int')
            self.same[mk('mcall', ds, 'GetGeoTransform')] = \
                sym('transform', 'any')
        c.assume('the rasters of one tile have the same grid (C04)')

    def listed(self, st, method):
        a = st.heap[self.obj.loc].attrs
        return self.S.ip.term(a['tile_files' if method == 'process_tile'
                                else 'max_tile_files'], st)

    def raised(self, run):
        """Conditions of the run that mean a failed gdal.Open."""
        out = set()
        for e in run.trace:
            for t in list(e.pc) + list(e.terms or []):
                out.update(T.atoms(t, lambda q: q.op == 'raises'))
        return out

    def picture(self, run, opened, name, keep=None):
        """Summaries of the calls of `name`, with every file there when
        `opened`, [(where, label, summary)]."""
        saved = [e for n in SAVED for e in run.events(n)]
        out = set()
        for e in saved:
            ts = evterms(self.S, e)
            # receiver first for the method
            k = 2 if e.name.startswith('.') else 1
            if len(ts) > k:
                out.add(ts[k])
        sub = {r: T.FALSE for r in self.raised(run)} if opened else {}
        sub.update(self.whole(run, out))
        res = []
        for e in (saved if name == 'saved' else run.events(name)):
            ts = list(evterms(self.S, e))
            label = None
            if name == 'saved':
                k = 1 if e.name.startswith('.') else 0
                ts = ts[k:k + 2]
            else:
                ds = ts[0]
                if ds.op == 'mcall' and ds.args[1] == 'GetRasterBand':
                    label = ds.args[2]
                    ds = ds.args[0]
                if ds not in out:
                    continue
                ts = [ds if label is None else label] + ts[1:]
            pc = T.tand(*e.pc)
            val = mk('tuple', pc, *ts)
            if sub:
                val = T.subst(val, sub)
            val = T.subst(val, self.same)
            if val.args[0] is T.FALSE:
                continue
            res.append((self.S.at(e), label, harness.strip(self.bare(val))))
        return res

    def whole(self, run, out):
        """A file created with some of its bands, the others added one by
        one, as the file created with all of them: {term: term}."""
        more = {}
        for e in run.events('.AddBand'):
            ts = evterms(self.S, e)
            if ts[0] in out and e.pc:
                return {}
            more.setdefault(ts[0], []).append(ts[1:])
        sub = {}
        for ds, adds in more.items():
            a = ds.args
            if ds.op != 'eff' or a[0] != '.Create' or len(a) != 9 \
                    or a[7].op != 'num' or any(list(x) != [a[8]]
                                               for x in adds):
                continue
            sub[ds] = mk('eff', *a[:7], T.num(a[7].args[0] + len(adds)),
                         a[8])
        return sub

    def bare(self, t):
        """Arrays by their content (their shape is that of the tile)."""
        def go(x):
            if x.op == 'B' and x.args[0] == 'arr':
                return elem(x, IX[0], IX[1])
            return x
        return mk('tuple', t.args[0], *[go(x) for x in t.args[1:]])

    def same_calls(self, inst, name, opened, only=None, **kw):
        c, S = self.c, self.S
        a = self.picture(self.run, opened, name)
        b = self.picture(self.spec, opened, name)
        left = list(a)
        for w, label, y in b:
            i2 = inst + (' band ' + T.show(label, 5) if label is not None
                         else '')
            hit = next((x for x in left if x[1] is label), None)
            if hit is None:
                c.record(i2, 'violation' if not S.ip.notes and (
                    a or not self.other_ways(name)) else 'undecided',
                    self.where,
                         '%s is not called for it' % name)
                continue
            # the last write of a band wins
            mine = [x for x in left if x[1] is label]
            for x in mine:
                left.remove(x)
            c.equal(i2, mine[-1][0], mine[-1][2], y, S.base_facts(), **kw)
        for w, label, x in left:
            c.record(inst + ' (extra)', 'violation' if not S.ip.notes
                     else 'undecided', w, 'a call of %s nothing asks for: %s'
                     % (name, harness.short(T.show(x, 8))))

    def other_ways(self, name):
        """Calls that may do to the raster saved what `name` does."""
        out = set()
        saved = [e for n in SAVED for e in self.run.events(n)]
        for e in saved:
            out |= {t for t in T.atoms(mk('tuple', *evterms(self.S, e)),
                                       lambda q: q.op == 'eff' and
                                       q.args[0] == '.Create')}
        found = []
        for e in self.run.trace:
            if e.name in DOES and e not in saved:
                continue
            ts = [t for t in e.terms or [self.S.ip.term(x, self.run.st)
                                         for x in e.args]
                  if isinstance(t, T.Term)]
            if e in saved:
                text = ' '.join(repr(t) for t in ts)
                if any(w in text for w in OPTIONS.get(name, ())):
                    found.append(e)
                if any(T.atoms(t, lambda q: q.op in (
                        'sym', 'havoc', 'cfg')) for t in ts
                       if t.op == 'kw'):
                    found.append(e)
            elif any(T.occurs(d, t) for d in out for t in ts) or not out:
                found.append(e)
        if not saved and name == 'saved':
            found += [e for e in self.run.trace if e.name not in DOES and
                      e.name.startswith(('gdal.', 'repo:', '.'))]
        return found

    def reference(self, late='', also=()):
        """The raster saved is in geographic coordinates, EPSG:4326; `also`:
        rasters that are."""
        S, c = self.S, self.c
        inst = 'reference system' + late
        es = [e for n in ('.SetProjection', '.SetSpatialRef')
              for e in self.run.events(n)]
        where = S.at(es[-1]) if es else self.where
        if not es:
            c.record(inst, 'violation' if not S.ip.notes and
                     not self.other_ways('.SetProjection') else 'undecided',
                     where, 'the raster saved is given none')
            return
        t = evterms(S, es[-1])[1]
        src = S.ip.tree.modules[CONVERT].tree
        codes, other = [], []
        for n in ast.walk(src):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute):
                if n.func.attr == 'ImportFromEPSG':
                    codes.append(n.args[0].value if n.args and isinstance(
                        n.args[0], ast.Constant) else None)
                elif n.func.attr.startswith((
                        'ImportFrom', 'SetFrom', 'SetWellKnown', 'Set',
                        'epsg')) and n.func.attr not in (
                            'SetProjection', 'SetSpatialRef',
                            'SetGeoTransform', 'SetNoDataValue',
                            'SetDescription', 'SetConfigOption',
                            'SetMetadata'):
                    other.append(n.func.attr)
        ref = mk('call', 'osr.SpatialReference')
        if t is mk('mcall', ref, 'ExportToWkt') or t is ref:
            ok = False if not codes and not other else \
                all(x == 4326 for x in codes) if codes and not other and \
                None not in codes else None
            c.judge(inst, ok, where, 'it is that of %s' % (
                ', '.join('EPSG:%s' % x for x in codes) or 'no place'))
        elif t.op == 'str':
            c.judge(inst, False if not t.args[0].strip() else
                    True if t.args[0] == 'EPSG:4326' else None, where,
                    'it is %r' % t.args[0])
        elif t.op == 'mcall' and t.args[1] in (
                'GetProjection', 'GetProjectionRef') and \
                t.args[0].op == 'call' and t.args[0].args[1] in also:
            c.ok(inst, where)
        else:
            c.undecided(inst, where, 'it is %s' % T.show(t, 6))

    def sizes(self, late=''):
        """Every raster made has the grid of the tile, and what is written
        to it has its size."""
        S, c = self.S, self.c
        n = 0
        for e in self.run.events('.Create'):
            ts = evterms(S, e)
            if len(ts) < 4 or any(t.op == 'kw' for t in ts):
                continue
            n += 1
            c.equal('grid of raster %d%s' % (n, late), S.at(e),
                    harness.strip(T.subst(mk('tuple', ts[2], ts[3]),
                                          self.same)),
                    mk('tuple', sym('nx', 'int'), sym('ny', 'int')),
                    S.base_facts())
        k = 0
        for e in self.run.events('.WriteArray'):
            ts = evterms(S, e)
            if len(ts) != 2 or ts[1].op != 'B' or ts[1].args[0] != 'arr':
                continue
            ds = ts[0].args[0] if ts[0].op == 'mcall' else None
            shape = self.shape(ts[1])
            if ds is None or shape is None:
                continue
            k += 1
            c.equal('size of what is written %d%s' % (k, late), S.at(e),
                    harness.strip(T.subst(mk('tuple', *shape), self.same)),
                    mk('tuple', sym('ny', 'int'), sym('nx', 'int')),
                    S.base_facts())

    def shape(self, t):
        x = t.args[3][0]
        return x if isinstance(x, tuple) and len(x) == 2 and all(
            isinstance(y, T.Term) for y in x) else None

    def mosaic(self, method, late=''):
        """The file saved is the one added to the list for the mosaic."""
        S = self.S
        now = self.listed(self.run.st, method)
        new = S.term(self.spec)
        was = self.before
        if was.op != 'list' or new.op != 'list':
            raise harness.Unsupported('list of files')
        self.c.equal('the file is listed for the mosaic' + late.rstrip(','),
                     self.where, now, mk('list', *(was.args + new.args)),
                     S.base_facts())
