"""Slope and compass sector of the ground.

`reclassify_aspect` is compared with `specs/shielding.py:sectors` for every
bearing; `get_slope_aspect` with `specs/shielding_tile.py:slope_aspect` (the
gradients the sector and the slope come from).
"""
from wmcheck import terms as T
from wmcheck.terms import mk, num
from .common import SHIELD, GRID

LEVEL = 'proof'


def check(c):
    S = c.session('shielding')
    c.minimum = 2
    c.compare(S, 'sector of a bearing', (SHIELD, 'reclassify_aspect'),
              ('shielding', 'sectors'), [S.array('bearing')])
    S = c.session('shielding_tile')
    ds = mk('call', 'gdal.Open', T.sym('dem', 'str'))
    sh = (mk('attr', ds, 'RasterYSize'), mk('attr', ds, 'RasterXSize'))
    S.assume(lambda f: (f.ge(sh[0], num(1)), f.ge(sh[1], num(1))))
    S.opaque(GRID, 'get_pixel_size_grids', result=('tuple', 'array',
                                                   'array'),
             shape=lambda b, st: sh)
    S.opaque(SHIELD, 'reclassify_aspect', result='array', like='data')
    gt = mk('mcall', ds, 'GetGeoTransform')
    S.assume(lambda f: (f.gt(mk('item', gt, num(1))),
                        f.gt(T.neg(mk('item', gt, num(5))))))
    c.assume('north-up raster')
    c.compare(S, 'slope and aspect', (SHIELD, 'get_slope_aspect'),
              ('shielding_tile', 'slope_aspect'), [T.sym('dem', 'str')])
