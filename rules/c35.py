"""Reading, merging and joining shapefiles keeps every record.

The methods of shp_file are summarised with the stand-ins of
`specs/layers.py` for the libraries: records with unknown fields and
geometries, in every pattern of missing geometries, of equal fields and of
overlaps up to a few records.
"""
import itertools
from wmcheck import terms as T
from wmcheck.library import FUNCS
from wmcheck.terms import mk, num, NONE
from wmcheck.values import DictObj, ListObj, Ref, Tup, InstObj
from .common import sym
from .effects import strip

LEVEL = 'other'
SHP = 'utilities.shapefiles'
POOLS = ('concurrent.futures.ThreadPoolExecutor',
         'concurrent.futures.thread.ThreadPoolExecutor',
         'concurrent.futures.ProcessPoolExecutor',
         'multiprocessing.Pool', 'multiprocessing.pool.ThreadPool')


class World(object):

    def __init__(self, c):
        self.S = S = c.session('layers')
        self.ip = S.ip
        self.st = S.state()
        self.layers = []
        self.where = SHP

    # values
    def list(self, xs):
        return self.ip.alloc(self.st, ListObj([('e', x) for x in xs]))

    def dict(self, **kw):
        return self.ip.alloc(self.st, DictObj(
            {T.string(k): v for k, v in kw.items()}))

    def make(self, name, *args):
        r = self.S.call(self.S.spec('layers', name), list(args),
                        st=self.st)
        self.st = r.st
        return r.value

    def obj(self, ref):
        return self.st.heap.get(ref.loc) or self.ip.base.heap.get(ref.loc)

    def layer(self, geoms, fields):
        o = self.make0()
        self.set(o, geom=self.list(geoms), attribute=self.list(fields),
                 meta=self.dict(driver=sym('driver', 'str'),
                                schema=sym('schema', 'any')))
        return o

    def make0(self):
        r = self.S.call(self.S.func(SHP, 'shp_file'), [], st=self.st)
        self.st = r.st
        return r.value

    def set(self, ref, **kw):
        o = self.obj(ref)
        at = dict(o.attrs)
        at.update(kw)
        self.st.heap[ref.loc] = InstObj(o.cls, at)

    def call(self, name, *args):
        f = self.S.func(SHP, 'shp_file.' + name)
        self.where = self.S.where(f)
        r = self.S.call(f, list(args), st=self.st)
        self.st = r.st
        return r

    def items(self, v):
        xs = self.S.M.concrete(v, self.st)
        return None if xs is None else list(xs)

    def attr(self, ref, name):
        return self.obj(ref).attrs.get(name)

    def fields(self, ref):
        o = self.obj(ref) if isinstance(ref, Ref) else None
        if not isinstance(o, DictObj):
            return None
        return {k.args[0] if k.op == 'str' else k: self.term(v)
                for k, v in o.items.items()}

    def term(self, v):
        return strip(self.ip.term(v, self.st))


class libraries(object):
    """The libraries, replaced while the block runs."""

    def __init__(self, w, records=None, positions=True):
        self.w = w
        self.new = {}
        S = w.S

        def cls(name):
            return S.spec('layers', name)

        def fopen(M, a, k, st, cx, node):
            meta = w.meta if hasattr(w, 'meta') else NONE
            ev = M.ip.event('fiona.open', a, k, st, node)
            r = M.ip.call(cls('Layer'), [w.list_in(st, records or []), meta],
                          {}, st, None, node)
            w.layers.append((r, [M.ip.term(x, st) for x in a], {
                n: M.ip.term(x, st) for n, x in k.items()}))
            ev.result = r
            return r

        def tree(M, a, k, st, cx, node):
            return M.ip.call(cls('Tree'), [a[0], T.TRUE if positions else
                                           T.FALSE], {}, st, None, node)

        def pool(M, a, k, st, cx, node):
            return M.ip.call(cls('Pool'), [], {}, st, None, node)
        self.new.update({'fiona.open': fopen, 'fiona.collection': fopen,
                         'shapely.strtree.STRtree': tree,
                         'shapely.STRtree': tree})
        self.new.update({p: pool for p in POOLS})

        def made(spec, n):
            def f(M, a, k, st, cx, node):
                r = M.ip.call(cls(spec), a, k, st, None, node)
                if n:
                    w.frames.append((r, st))
                return r
            return f
        w.frames = []
        for spec, name in (('Point', 'Point'), ('Frame', 'Polygon'),
                           ('rectangle', 'box')):
            for mod in ('shapely.geometry.', 'shapely.',
                        'shapely.geometry.%s.' % name.lower()):
                self.new[mod + name] = made(spec, spec != 'Point')

    def __enter__(self):
        self.old = {n: FUNCS.get(n) for n in self.new}
        FUNCS.update(self.new)
        self.w.list_in = lambda st, xs: self.w.ip.alloc(
            st, ListObj([('e', x) for x in xs]))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            if f is None:
                FUNCS.pop(n, None)
            else:
                FUNCS[n] = f


def show(x):
    return 'nothing' if x is None else '[%s]' % ', '.join(
        T.show(t, 4) for t in x)


def judge(c, w, what, got, want):
    """Lists of terms have to be the same."""
    vague = w.S.ip.notes or got is None or any(
        T.atoms(t, lambda q: q.op in ('havoc', 'undef', 'ite', 'eff'))
        for t in got)
    if got is not None and len(got) == len(want) and all(
            x is y for x, y in zip(got, want)):
        c.judge(what, True, w.where, '')
        return
    c.judge(what, None if vague else False, w.where, '%s, not %s' % (
        show(got), show(want)))


def shape(g):
    return mk('call', 'shapely.geometry.shape', g)


def reading(c):
    for there in itertools.product((True, False), repeat=3):
        w = World(c)
        recs, want, props = [], [], []
        for k, t in enumerate(there):
            g = w.dict(type=T.string('Polygon'),
                       coordinates=sym('xy%d' % k, 'any')) if t else NONE
            p = w.dict(NAME=sym('name%d' % k, 'any'))
            recs.append(w.dict(geometry=g, properties=p,
                               id=T.string(str(k))))
            if t:
                want.append(shape(w.term(g)))
                props.append(mk('dict', mk('tuple', T.string('NAME'),
                                           sym('name%d' % k, 'any'))))
        w.meta = w.dict(driver=sym('driver', 'str'),
                        schema=sym('schema', 'any'))
        o = w.make0()
        with libraries(w, recs):
            w.call('read', o, sym('path', 'str'))
        tag = ' of records %s' % ''.join('g-'[not t] for t in there)
        g = w.items(w.attr(o, 'geom'))
        a = w.items(w.attr(o, 'attribute'))
        judge(c, w, 'geometries read' + tag, None if g is None else
              [w.term(x) for x in g], want)
        judge(c, w, 'fields read' + tag, None if a is None else
              [w.term(x) for x in a], props)
        judge(c, w, 'description read' + tag, [w.term(w.attr(o, 'meta'))],
              [w.term(w.meta)])
        judge(c, w, 'file read' + tag, [a[0] for r, a, k in w.layers],
              [sym('path', 'str')])


def saving(c):
    for n in range(4):
        w = World(c)
        gs = [sym('g%d' % k, 'obj') for k in range(n)]
        fs = [w.dict(NAME=sym('name%d' % k, 'any')) for k in range(n)]
        o = w.layer(gs, fs)
        with libraries(w):
            w.call('save', o, sym('path', 'str'))
        tag = ' of %d records' % n
        if len(w.layers) != 1:
            c.judge('one file is written' + tag, False if not w.layers and
                    not w.S.ip.notes else None, w.where,
                    '%d files' % len(w.layers))
            continue
        ref, args, kw = w.layers[0]
        judge(c, w, 'name and mode' + tag, args[:1] + [
            args[1] if len(args) > 1 else kw.get('mode', NONE)],
            [sym('path', 'str'), T.string('w')])
        for k in ('driver', 'schema'):
            judge(c, w, k + tag, [kw.get(k, NONE)],
                  [sym(k, 'str' if k == 'driver' else 'any')])
        out = w.items(w.attr(ref, 'written'))
        judge(c, w, 'records' + tag, None if out is None else
              [w.term(x) for x in out], [
                  mk('tuple', mk('call', 'shapely.geometry.mapping', g),
                     w.term(f), T.FALSE) for g, f in zip(gs, fs)])
        judge(c, w, 'closed' + tag, [w.term(w.attr(ref, 'closed'))],
              [T.TRUE])


def union(t):
    """Geometries a term unites, or None."""
    t = strip(t)
    if t.op == 'sym':
        return {t}
    if t.op in ('call', 'eff') and t.args[0].endswith('unary_union'):
        x = t.args[-1]
        return set(x.args) if x.op in ('list', 'tuple') else None
    return None


def merging(c):
    """One record per value, with the union of its geometries."""
    for n in range(5):
        for vals in itertools.product(('A', 'B', None), repeat=n):
            w = World(c)
            gs = [sym('g%d' % k, 'obj') for k in range(n)]
            fs = [w.dict(TOWN=NONE if v is None else T.string(v),
                         NAME=sym('name%d' % k, 'any'))
                  for k, v in enumerate(vals)]
            o = w.layer(gs, fs)
            w.call('dissolve', o, T.string('TOWN'))
            tag = ' of %s' % ','.join(str(v) for v in vals)
            g = w.items(w.attr(o, 'geom'))
            a = w.items(w.attr(o, 'attribute'))
            if g is None or a is None:
                c.undecided('merged' + tag, w.where, 'not followed')
                continue
            if len(g) != len(a):
                c.judge('merged' + tag, False, w.where, '%d geometries, %d '
                        'records' % (len(g), len(a)))
                continue
            got = {}
            for x, y in zip(g, a):
                y = w.fields(y)
                v = None if y is None else y.get('TOWN')
                u = union(w.term(x))
                if u is None or v is None:
                    got = None
                    break
                v = None if v is NONE else v.args[0] if v.op == 'str' else v
                if v in got:
                    got = 'two records with %s' % v
                    break
                got[v] = u
            want = {}
            for k, v in enumerate(vals):
                want.setdefault(v, set()).add(gs[k])
            if isinstance(got, str):
                c.judge('merged' + tag, False, w.where, got)
            else:
                c.judge('merged' + tag, True if got == want else
                        None if got is None or w.S.ip.notes else False,
                        w.where, '%s' % got)


BOUNDS = (10, 20, 40, 70)


def cropping(c):
    """The part within the bounds of the mask of every record that has one."""
    for n in range(4):
        for pattern in itertools.product((None, 0, 3), repeat=n):
            w = World(c)
            gs = [w.make('Shape', T.string('g%d' % k), w.dict(
                frame=NONE if x is None else num(x)), num(9))
                for k, x in enumerate(pattern)]
            fs = [w.dict(NAME=sym('name%d' % k, 'any')) for k in range(n)]
            o = w.layer(gs, fs)
            mask = w.make('Shape', T.string('mask'), w.dict(), num(9),
                          Tup([num(x) for x in BOUNDS]))
            with libraries(w):
                w.call('crop', o, mask)
            tag = ' of %s' % (', '.join(
                {None: 'outside', 0: 'edge', 3: 'inside'}[x]
                for x in pattern) or 'nothing')
            g = w.items(w.attr(o, 'geom'))
            a = w.items(w.attr(o, 'attribute'))
            vague = w.S.ip.notes
            if g is None or a is None:
                c.undecided('cropped' + tag, w.where, 'not followed')
                continue
            want = [k for k, x in enumerate(pattern) if x]
            got = []
            for x in g:
                ob = w.obj(x) if isinstance(x, Ref) else None
                at = getattr(ob, 'attrs', {}).get('name')
                t = None if at is None else w.term(at)
                got.append(t)
            parts = [mk('tuple', T.string('cut'), T.string('frame'),
                        T.string('g%d' % k)) for k in want]
            other = [mk('tuple', T.string('cut'), T.string('g%d' % k),
                        T.string('frame')) for k in want]
            if all(any(x is y for y in (p, q))
                   for x, p, q in zip(got, parts, other)) and \
                    len(got) == len(want):
                got = parts
            judge(c, w, 'cropped' + tag, None if None in got else got, parts)
            fields = [w.fields(x) for x in a]
            judge(c, w, 'fields of the cropped' + tag,
                  None if None in fields else
                  [f.get('NAME', NONE) for f in fields],
                  [sym('name%d' % k, 'any') for k in want])
            if not w.frames:
                if want and not vague:
                    c.undecided('bounds' + tag, w.where, 'no polygon made')
                continue
            for f, st in w.frames[:1]:
                at = (w.st.heap.get(f.loc) or st.heap.get(f.loc)).attrs
                ps = w.term(at['corners'])
                ok = None
                if ps.op in ('list', 'tuple') and all(
                        p.op in ('list', 'tuple') and len(p.args) == 2 and
                        all(q.op == 'num' for q in p.args)
                        for p in ps.args):
                    ring = [tuple(int(q.args[0]) for q in p.args)
                            for p in ps.args]
                    ok = rectangle(ring)
                c.judge('bounds' + tag, ok, w.where,
                        'the corners are %s' % T.show(ps, 6))


def rectangle(ring):
    """Whether the corners are those of BOUNDS one after another."""
    a, b, x, y = BOUNDS
    want = [(a, b), (a, y), (x, y), (x, b)]
    if len(ring) == 5 and ring[0] == ring[-1]:
        ring = ring[:-1]
    turns = [want[k:] + want[:k] for k in range(4)]
    return ring in turns or ring[::-1] in turns


AREAS = (None, 2, 5)


def joining(c):
    """The region that shares the largest area, nothing when none does."""
    rows = [r for r in itertools.product(AREAS, repeat=2)
            if r[0] != r[1] or r[0] is None]
    rows3 = [(None, None, 1), (3, 1, None), (1, 2, 3), (2, 3, 1),
             (None, 1, 3), (None, None, None)]
    cases = [(p, (a, b)) for p in (True, False)
             for a in rows for b in rows if a != b or a[0] is None]
    cases += [(p, (a, b)) for p in (True, False)
              for a, b in zip(rows3, rows3[1:])]
    for positions, pattern in cases:
        w = World(c)
        m = len(pattern[0])
        others = [w.make('Shape', T.string('o%d' % j), w.dict(),
                         num(7 * 10 ** j))
                  for j in range(m)]
        mine = []
        for k, row in enumerate(pattern):
            mine.append(w.make('Shape', T.string('m%d' % k), w.dict(
                **{'o%d' % j: NONE if x is None else num(x)
                   for j, x in enumerate(row)}), num(7 + k)))
        a = w.layer(mine, [w.dict(USE=sym('use%d' % k, 'any'))
                           for k in range(len(mine))])
        b = w.layer(others, [w.dict(TOWN=sym('town%d' % j, 'any'),
                                    USE=T.string('other'))
                             for j in range(m)])
        with libraries(w, positions=positions):
            w.call('spatial_join', a, b, T.string('TOWN'))
        tag = ' with areas %s%s' % (' and '.join(
            '/'.join('-' if x is None else str(x) for x in row)
            for row in pattern), '' if positions else
            ' (the tree gives geometries)')
        fs = [w.fields(x) for x in w.items(w.attr(a, 'attribute')) or []]
        if len(fs) != len(mine) or None in fs:
            c.judge('joined' + tag, None if w.S.ip.notes or None in fs
                    else False, w.where, '%d records' % len(fs))
            continue
        want = []
        for row in pattern:
            best = [j for j, x in enumerate(row) if x is not None]
            best = max(best, key=lambda j: row[j]) if best else None
            want.append(NONE if best is None else
                        sym('town%d' % best, 'any'))
        judge(c, w, 'joined' + tag, [f.get('TOWN', sym('nothing', 'any'))
                                     for f in fs], want)
        judge(c, w, 'other fields' + tag, [f.get('USE', NONE) for f in fs],
              [sym('use%d' % k, 'any') for k in range(len(mine))])


def check(c):
    for n in ('read', 'save', 'dissolve', 'crop', 'spatial_join'):
        c.saw("%s.shp_file.%s" % (SHP, n))
    c.attempt('reading', SHP, lambda: reading(c), 200)
    c.attempt('saving', SHP, lambda: saving(c), 200)
    c.attempt('merging', SHP, lambda: merging(c), 300)
    c.attempt('cropping', SHP, lambda: cropping(c), 300)
    c.attempt('joining', SHP, lambda: joining(c), 300)
    c.minimum = 100
