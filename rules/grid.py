"""The tile grid of a raster, analysed with an opaque raster."""
from wmcheck import terms as T
from wmcheck.terms import mk, num, add, mul, neg
from wmcheck.values import Tup, Cls
from wmcheck.harness import Anchor
from .common import MAIN, sym


class Grid(object):
    """A TileGrid of the tree, and what the specification says about it."""

    def __init__(self, c):
        self.c = c
        S = self.S = c.session('grid')
        mod = S.module(MAIN)
        self.cls = S.ip.base.heap[mod.frame].vars.get('TileGrid')
        if not isinstance(self.cls, Cls):
            raise Anchor('class TileGrid is not in the tree')
        c.saw('%s TileGrid' % S.relpath(MAIN))
        c.assume('north-up raster with positive cell sizes, upwind length '
                 '>= 0')
        up = sym('upwind')
        self.run = S.call(self.cls, [up, sym('dem', 'str')])
        self.obj = self.run.value
        ds = self.source()
        gt = mk('mcall', ds, 'GetGeoTransform')
        self.gt = gt
        X, Y = mk('attr', ds, 'RasterXSize'), mk('attr', ds, 'RasterYSize')
        pw, ph = mk('item', gt, num(1)), neg(mk('item', gt, num(5)))
        S.assume(lambda f: (f.ge(X, num(1)), f.ge(Y, num(1)), f.gt(pw),
                            f.gt(ph), f.ge(up)))
        b = S.call(S.spec('grid', 'tiling'), [gt, X, Y, up])
        self.C, self.R, self.nx, self.ny, self.bx, self.by = S.term(b).args
        # name the sizes: nx cells per tile, C = ceil(X / nx) tiles, ...
        self.names = []
        self.given = {x: getattr(self, x) for x in ('R', 'C', 'nx', 'ny',
                                                    'bx', 'by')}
        for attr in ('R', 'C', 'nx', 'ny', 'bx', 'by'):
            t = self.named(self.given[attr])
            a = [x for x in T.atoms(t, lambda q: q.op in ('floor', 'trunc'))]
            y = sym(attr, 'int', nn=True)
            if t.op == 'poly' and T.neg(t) in a:
                self.names.append({T.neg(t): T.neg(y)})
            elif t in a:
                self.names.append({t: y})
            else:
                continue
            setattr(self, attr, y)
        C, R, nx, ny = self.C, self.R, self.nx, self.ny
        S.assume(lambda f: [f.ge(x, num(1)) for x in (nx, ny, C, R)])
        S.assume(lambda f: (f.ge(self.bx), f.ge(self.by)))
        S.assume(lambda f: (f.ge(mul(nx, C), X), f.ge(mul(ny, R), Y),
                            f.gt(X, T.sub(mul(nx, C), nx)),
                            f.gt(Y, T.sub(mul(ny, R), ny))))
        S.assume(lambda f: [f.ge(g, num(1)) for g in (
            self.given[x] for x in ('R', 'C', 'nx', 'ny'))])
        S.assume(lambda f: [f.ge(self.given[x]) for x in ('bx', 'by')])
        T.POSITIVE.extend([self.given['nx'], self.given['ny'], nx, ny])
        self.run = S.call(self.cls, [up, sym('dem', 'str')])
        self.obj = self.run.value
        self.i, self.j = sym('i', 'int'), sym('j', 'int')
        i, j = self.i, self.j
        S.assume(lambda f: (f.ge(i), f.ge(j),
                            f.ge(T.sub(self.C, i), num(1)),
                            f.ge(T.sub(self.R, j), num(1))))
        self.k = add(mul(self.given['R'], i), j)
        self.X, self.Y = X, Y

    def named(self, t):
        for m in self.names:
            t = T.subst(t, m)
        return t

    def term(self, out):
        return self.named(self.S.term(out))

    def source(self):
        for e in self.run.trace:
            if e.name in ('gdal.Open', 'gdal.OpenEx') and \
                    e.result is not None:
                return self.S.ip.term(e.result, self.run.st)
        return mk('call', 'gdal.Open', sym('dem', 'str'))

    def method(self, name, *args):
        S = self.S
        f = S.func(MAIN, 'TileGrid.' + name)
        self.c.saw(S.where(f))
        return S.where(f), S.call(f, [self.obj] + list(args),
                                  st=self.run.st.copy())

    def tuple(self, *xs):
        return Tup(list(xs))

    def core(self):
        return self.S.call(self.S.spec('grid', 'core'), [
            self.k, self.X, self.Y, self.given['nx'], self.given['ny']])

    def buffered(self):
        return self.S.call(self.S.spec('grid', 'buffered'), [
            self.k, self.X, self.Y] + [self.given[x] for x in (
                'nx', 'ny', 'bx', 'by')])
