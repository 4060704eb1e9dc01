"""Different land-cover classes never share a table row.

`pre_process` is summarised with shapefiles whose records have unknown
fields; what is saved is compared with `specs/landcover.py` for every
settlement and land use, and so is what `rasterize` burns.  The settings of
the main block have to reach the arguments they are named after.
"""
import ast
from wmcheck import terms as T, harness
from wmcheck.interp import Ctx, Dead
from wmcheck.terms import mk, num, NONE
from wmcheck.values import DictObj, ListObj, InstObj, Ref
from .common import sym
from .effects import strip, terms_of

LEVEL = 'proof'
PRE, SHP = 'pre_process', 'utilities.shapefiles'
SET, USE = 'TOWN', 'USE'
RASTER = ('.Create', '.SetProjection', '.SetGeoTransform',
          '.SetNoDataValue', 'gdal.RasterizeLayer')


class Layers(object):
    """Shapefiles with records of unknown fields; what the steps are given
    is recorded."""

    def __init__(self, S):
        self.S = S
        self.calls = []
        for n in ('read', 'dissolve', 'crop', 'spatial_join', 'save'):
            f = S.func(SHP, 'shp_file.' + n)
            S.M.overrides['%s.%s' % (f.module, f.name)] = \
                lambda a, k, st, node, n=n, f=f: self.call(n, f, a, k, st,
                                                          node)

    def obj(self, st, ref):
        return st.heap.get(ref.loc) or self.S.ip.base.heap.get(ref.loc)

    def records(self, st, ref):
        """[{field: term}] of the layer."""
        ip = self.S.ip
        o = self.obj(st, ref)
        xs = self.S.M.concrete(o.attrs['attribute'], st)
        out = []
        for x in xs if xs is not None else []:
            d = self.obj(st, x) if isinstance(x, Ref) else None
            out.append(None if not isinstance(d, DictObj) else {
                (k.args[0] if isinstance(k, T.Term) and k.op == 'str'
                 else k): ip.term(v, st) for k, v in d.items.items()})
        return None if xs is None else out

    def call(self, n, f, a, k, st, node):
        S, ip = self.S, self.S.ip
        b = ip.bind_args(f, a, k, st, node)
        names = [x.arg for x in f.node.args.args]
        vals = [b.get(x, NONE) for x in names]
        ts = [ip.term(v, st) for v in vals[1:]]
        ev = ip.event('layer.' + n, vals, {}, st, node)
        ev.terms = ts
        o = self.obj(st, vals[0])
        if n == 'read':
            at = dict(o.attrs)
            name = ts[0].args[0] if ts[0].op in ('str', 'sym') else 'x'
            props = ip.alloc(st, DictObj({T.string('AREA'): T.string(
                'float')}))
            schema = ip.alloc(st, DictObj({T.string('properties'): props}))
            at['meta'] = ip.alloc(st, DictObj({T.string('schema'): schema}))
            at['geom'] = ip.alloc(st, ListObj(
                [('e', sym('%s%d' % (name, q), 'obj')) for q in (1, 2)]))
            at['attribute'] = ip.alloc(st, ListObj([
                ('e', ip.alloc(st, DictObj(
                    {T.string(x): sym('%s%d%s' % (name, q, x), 'any')
                     for x in (SET, USE, 'AREA')}))) for q in (1, 2)]))
            st.heap[vals[0].loc] = InstObj(o.cls, at)
            self.calls.append((n, ev, ts, None))
            return NONE
        if n == 'spatial_join' and isinstance(vals[1], Ref):
            self.calls.append((n, ev, ts, self.records(st, vals[1])))
            for q, x in enumerate(S.M.concrete(o.attrs['attribute'], st) or
                                  []):
                d = self.obj(st, x)
                items = dict(d.items)
                items[ts[1]] = sym('joined%d' % q, 'any')
                st.heap[x.loc] = DictObj(items)
            return NONE
        meta = None
        if n == 'save':
            try:
                m = self.obj(st, o.attrs['meta']).items
                m = self.obj(st, m[T.string('schema')]).items
                m = self.obj(st, m[T.string('properties')]).items
                meta = {q.args[0]: ip.term(v, st) for q, v in m.items()}
            except (AttributeError, KeyError):
                meta = None
        self.calls.append((n, ev, ts, self.records(st, vals[0]), meta,
                           vals[0]))
        return NONE


def same(c, S, what, where, got, want):
    if got is None:
        c.judge(what, None if S.ip.notes else False, where, 'missing')
        return
    c.equal(what, where, strip(got), strip(want), S.base_facts())


def mapping(c, mask):
    S = c.session('landcover')
    L = Layers(S)
    f = S.func(PRE, 'pre_process')
    where = S.where(f)
    c.saw(where)
    tag = ' (no crop)' if mask == 'None' else ' (cropped)'
    r = S.call(f, [T.string('towns'), T.string(SET), T.string('uses'),
                   T.string(USE), T.string(mask), sym('result', 'str')])
    by = {}
    for x in L.calls:
        by.setdefault(x[0], []).append(x)
    if len(by.get('save', [])) != 1:
        c.judge('one shapefile is saved' + tag, False if not by.get(
            'save') and not S.ip.notes else None, where,
            '%d are saved' % len(by.get('save', [])))
        return
    n, ev, ts, recs, meta, ref = by['save'][0]
    c.judge('saved always' + tag, T.tand(*ev.pc) is T.TRUE or None,
            S.at(ev), T.show(T.tand(*ev.pc), 5))
    same(c, S, 'name of the shapefile' + tag, S.at(ev), ts[0],
         sym('result', 'str'))
    joins = by.get('spatial_join', [])
    if len(joins) != 1:
        c.judge('one join' + tag, False if not joins and not S.ip.notes
                else None, where, '%d joins' % len(joins))
        return
    if not recs or None in recs or len(recs) != 2:
        c.undecided('records saved' + tag, where, 'not followed')
        return
    for q, rec in enumerate(recs):
        t = ' of record %d' % q + tag
        use = sym('uses%d%s' % (q + 1, USE), 'any')
        same(c, S, 'code' + t, S.at(ev), rec.get('CAT'), S.ip.term(
            S.call(S.spec('landcover', 'code'), [
                sym('joined%d' % q, 'any'), use]).value, r.st))
        same(c, S, 'land use' + t, S.at(ev), rec.get(USE), use)
        same(c, S, 'area' + t, S.at(ev), rec.get('AREA'),
             sym('uses%d%s' % (q + 1, 'AREA'), 'any'))
        same(c, S, 'settlement' + t, S.at(ev), rec.get(SET),
             sym('joined%d' % q, 'any'))
    if meta is None:
        c.undecided('schema' + tag, where, 'not followed')
    else:
        for name, kind in (('CAT', 'int'), (SET, 'str'), ('AREA', 'float')):
            t = meta.get(name)
            c.judge('schema has %s%s' % (name, tag), None if t is not None
                    and t.op != 'str' else t is not None and
                    t.args[0].startswith(kind), S.at(ev),
                    'type %s' % (T.show(t, 3) if t is not None else 'none'))
    n, ev, ts, recs = joins[0]
    same(c, S, 'field joined' + tag, S.at(ev), ts[1], T.string(SET))
    for q, rec in enumerate(recs or []):
        if rec is None:
            continue
        town = sym('towns%d%s' % (q + 1, SET), 'any')
        same(c, S, 'settlement %d that is joined%s' % (q, tag), S.at(ev),
             rec.get(SET), S.ip.term(S.call(S.spec('landcover', 'town'), [
                 town]).value, r.st))
    order = [x[0] for x in L.calls]
    towns = [k for k, x in enumerate(L.calls) if x[0] == 'dissolve' and
             strip(x[2][0]) is T.string(SET)]
    c.judge('settlements of one type are one region' + tag, bool(
        towns and towns[0] < order.index('spatial_join')) or
        (None if S.ip.notes and not towns and 'dissolve' in order else
         False), where, 'they are not dissolved before the join')
    crops = by.get('crop', [])
    if mask == 'None':
        c.judge('nothing is cropped without a mask', not crops, where,
                'a layer is cropped')
    else:
        refs = {repr(x[5].loc) for x in crops}
        c.judge('both layers are cropped with a mask', len(refs) == 2 and
                order.index('spatial_join') > max(
                    k for k, x in enumerate(order) if x == 'crop') or
                (None if S.ip.notes and not crops else False), where,
                '%d layers are cropped before the join' % len(refs))
        for k, x in enumerate(crops):
            same(c, S, 'mask of crop %d' % k, S.at(x[1]), x[2][0],
                 sym('%s1' % mask, 'obj'))


def burned(c):
    S = c.session('landcover')
    f = S.func(PRE, 'rasterize')
    where = S.where(f)
    c.saw(where)
    args = [sym(x, 'str') for x in ('shapes', 'out', 'topo')] + [NONE]
    a = S.call(f, args)
    b = S.call(S.spec('landcover', 'rasterize'), args)
    for n in RASTER:
        c.events(S, 'rasterize ' + n, a, b, n)


def main_trace(c, S):
    """The events of the main block of pre_process; None without one."""
    m = S.module(PRE)
    for n in ('pre_process', 'rasterize'):
        S.opaque(PRE, n, result='none')
    src = S.tree.modules[PRE]
    ifs = [x for x in src.tree.body if isinstance(x, ast.If) and any(
        isinstance(y, ast.Name) and y.id == '__name__'
        for y in ast.walk(x.test))] if hasattr(src, 'tree') else []
    if not ifs:
        return None
    ip = S.ip
    st = S.state()
    fr = st.heap[m.frame]
    st.heap[m.frame] = type(fr)(dict(fr.vars, __name__=T.string(
        '__main__')), fr.parent, fr.module)
    saved = ip.trace, ip.loopstack, ip.trystack
    ip.trace, ip.loopstack, ip.trystack = [], [], []
    ip.callstack.append((PRE, '__main__'))
    try:
        try:
            ip.exec_block(ifs, st, Ctx('__main__', PRE, m.frame, 0))
        except Dead:
            pass
        return ip.trace
    finally:
        ip.trace, ip.loopstack, ip.trystack = saved
        ip.callstack.pop()


def main_block(c):
    S = c.session()
    ip, where = S.ip, 'pre_process.py main block'
    tr = main_trace(c, S)
    if tr is None:
        c.undecided('settings', where, 'no main block')
        return

    def cfg(o, s='Preprocessing'):
        return mk('cfg', T.string(s), T.string(o))
    topo = T.ite(T.eq(cfg('input_topo'), T.string('True')),
                 cfg('dem_data', 'inputValues'), cfg('input_topo'))
    want = {'repo:pre_process': [
        cfg('settlement_data'), cfg('settlement_cat'), cfg('land_use_data'),
        cfg('land_use_cat'), cfg('crop_mask'), cfg('output_shapefile')],
        'repo:rasterize': [cfg('output_shapefile'),
                           cfg('output_rasterized'), topo]}
    for n, xs in sorted(want.items()):
        ev = [e for e in tr if e.name == n]
        f = S.func(PRE, n[5:])
        names = [x.arg for x in f.node.args.args]
        if len(ev) != 1:
            c.judge(n[5:] + ' is called once', False if not ev and not
                    ip.notes else None, where, '%d calls' % len(ev))
            continue
        for name, got, x in zip(names, ev[0].terms, xs):
            same(c, S, '%s of %s' % (name, n[5:]), S.at(ev[0]), got, x)
    ks = [k for k, e in enumerate(tr) if e.name in want]
    c.judge('rasterized after it is made', [tr[k].name for k in ks] ==
            sorted(want), where, 'the order is %s' %
            [tr[k].name for k in ks])


def check(c):
    c.attempt('codes', PRE, lambda: mapping(c, 'None'), 200)
    c.attempt('codes with a mask', PRE, lambda: mapping(c, 'mask'), 200)
    c.attempt('raster of the codes', PRE, lambda: burned(c), 200)
    c.attempt('settings', PRE, lambda: main_block(c), 200)
    codes = {100 * s + u for s in range(6)
             for u in (0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11)}
    c.judge('codes differ and fit 16 bits', len(codes) == 66 and
            max(codes) < 65536, 'specs/landcover.py', '')
    c.minimum = 25
