"""A Multipliers object of the tree whose DEM is open."""
from wmcheck import terms as T
from wmcheck.terms import mk
from wmcheck.values import Cls, Tup
from wmcheck.harness import Anchor
from .common import MAIN, TERRAIN, SHIELD, TOPO, sym


class Tiles(object):

    def __init__(self, c, *opaque):
        self.c = c
        S = self.S = c.session('tile')
        for m, f in ((TERRAIN, 'terrain'), (SHIELD, 'shield'),
                     (TOPO, 'topomult')) + opaque:
            S.opaque(m, f, result='none')
        mod = S.module(MAIN)
        fr = S.ip.base.heap[mod.frame]
        self.vars = fr.vars
        fr.vars['output_folder'] = self.out = sym('out', 'str')
        K = fr.vars.get('Multipliers')
        if not isinstance(K, Cls):
            raise Anchor('class Multipliers is not in the tree')
        self.lcv, self.dem = sym('lcv', 'str'), sym('dem', 'str')
        a = S.call(K, [self.lcv, self.dem])
        self.obj = a.value
        self.made = S.call(S.func(MAIN, 'Multipliers.open_dem'), [self.obj],
                           st=a.st)
        self.st = self.made.st

    def method(self, name, *args):
        S = self.S
        f = S.func(MAIN, 'Multipliers.' + name)
        self.c.saw(S.where(f))
        return S.where(f), S.call(f, [self.obj] + list(args),
                                  st=self.st.copy())


def raster_events(c, S, inst, a, b, exists, **kw):
    """The same raster is created, georeferenced and filled."""
    for nm in ('.Create', '.SetGeoTransform', '.SetProjection',
               'gdal.ReprojectImage'):
        c.events(S, inst + ' ' + nm.lstrip('.'), a, b, nm, exists=exists,
                 **kw)
