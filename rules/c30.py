"""Rasters of one tile: the DEM tile holds exactly the cells of the buffered
extent; the land cover is brought onto the cells of the DEM tile by nearest
neighbour, so that classes are never mixed.

`Multipliers.cut_dem` / `clip_dataset`, `reproject_dataset` and
`multipliers_calculate` are compared with `specs/tile.py`: the rasters
created, their georeference, type, the resampling, and the calls of the three
multipliers.
"""
from wmcheck import terms as T
from wmcheck.terms import mk, num, sub
from wmcheck.values import Tup
from .c04 import on_grid
from .common import MAIN, sym
from .tiles import Tiles, raster_events

LEVEL = 'proof'


def dem_tile(c):
    t = Tiles(c)
    S = t.S
    ext, (x1, x2, y1, y2), pw, ph, left, top = on_grid(S)
    ds = None
    for e in t.made.trace:
        if e.name == 'gdal.Open' and e.result is not None:
            ds = S.ip.term(e.result, t.st)
    gt = mk('mcall', ds, 'GetGeoTransform')
    m = {pw: mk('item', gt, num(1)), ph: T.neg(mk('item', gt, num(5)))}
    ext = Tup([T.subst(x, m) for x in ext.items])
    S.assume(lambda f: [f.gt(x) for x in m.values()])
    info = Tup([sym('name', 'str'), ext, sym('core', 'any')])
    w, a = t.method('cut_dem', info)
    out = S.term(a)
    b = S.call(S.spec('tile', 'cut'), [t.dem, ext, sub(x2, x1),
                                       sub(y2, y1), out])
    raster_events(c, S, 'DEM tile', a, b, {t.dem})
    c.equal('name of the DEM tile', w, out, T.pjoin(
        t.out, T.cat(sym('name', 'str'), T.string('_dem.img'))),
        S.base_facts())


def landcover(c):
    t = Tiles(c)
    S = t.S
    f = S.func(MAIN, 'reproject_dataset')
    c.saw(S.where(f))
    match = mk('call', 'gdal.Open', sym('match', 'str'))
    args = [t.lcv, match, sym('dst', 'str')]
    a = S.call(f, args)
    b = S.call(S.spec('tile', 'resample'), args)
    raster_events(c, S, 'land cover', a, b, {t.lcv})


def landcover_as(c):
    t = Tiles(c)
    S = t.S
    f = S.func(MAIN, 'reproject_dataset')
    match = sym('match', 'str')
    args = [t.lcv, match, sym('dst', 'str'), sym('method', 'int'),
            sym('epsg', 'int')]
    S.assume(lambda f: (f.gt(args[4]),))
    a = S.call(f, args)
    b = S.call(S.spec('tile', 'resample_as'), args)
    raster_events(c, S, 'land cover, matched to a file and a projection',
                  a, b, {t.lcv, match})
    c.events(S, 'projection asked for', a, b, '.ImportFromEPSG',
             exists={t.lcv, match})


def steps(c):
    t = Tiles(c, (MAIN, 'reproject_dataset'))
    S = t.S
    info = Tup([sym('name', 'str'), sym('wide', 'any'), sym('core', 'any')])
    w, a = t.method('multipliers_calculate', sym('dt', 'str'), info)
    b = S.call(S.spec('tile', 'calculate'), [t.lcv, t.out, sym('dt', 'str'),
                                             info])
    for nm in ('reproject_dataset', 'terrain', 'shield', 'topomult'):
        c.events(S, 'tile step ' + nm, a, b, 'repo:' + nm,
                 exists={sym('dt', 'str')})


def check(c):
    c.minimum = 8
    c.attempt('DEM tile', 'Multipliers.cut_dem', lambda: dem_tile(c))
    c.attempt('land cover', 'reproject_dataset', lambda: landcover(c))
    c.attempt('land cover, matched to a file', 'reproject_dataset',
              lambda: landcover_as(c))
    c.attempt('tile steps', 'multipliers_calculate', lambda: steps(c))
