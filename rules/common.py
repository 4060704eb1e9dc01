"""Sessions the rules share: which callees of a subject are summarised by an
uninterpreted symbol (they have obligations of their own)."""
from wmcheck import terms as T
from wmcheck.terms import mk, num
from wmcheck.values import Tup

DIRECTIONS = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']

TERRAIN = 'terrain.terrain_mult'
SHIELD = 'shielding.shield_mult'
TOPO = 'topographic.topo_mult'
NC = 'utilities.nctools'
CONVERT = 'utilities.convert'
GRID = 'utilities.get_pixel_size_grid'
MAIN = 'all_multipliers'


def sym(s, k='num', **kw):
    return T.sym(s, k, **kw)


def extent():
    return Tup([sym('e%d' % i) for i in range(4)])


def writers(S):
    """The netCDF helpers every tile writer ends with."""
    S.opaque(NC, 'save_multiplier', result='none')
    S.opaque(NC, 'get_lat_lon', result=('tuple', 'value', 'value'))
    S.opaque(NC, 'clip_array', result='array')
    S.opaque(GRID, 'get_pixel_size_grids', result=('tuple', 'array',
                                                   'array'))


def direction_key(ts):
    """File a save_multiplier event writes."""
    return ts[4]


def terrain_runs(c):
    S = c.session('terrain_tile')
    S.opaque(TERRAIN, 'convo', result='array', like='data')
    S.opaque(TERRAIN, 'terrain_class2mz_orig', result='array', like='data')
    S.opaque(TERRAIN, 'get_terrain_table')
    writers(S)
    f = S.func(TERRAIN, 'terrain')
    c.saw(S.where(f))
    args = [sym('tile', 'str'), extent()]
    return S, S.call(f, args), S.call(S.spec('terrain_tile', 'tile'), args)


def shield_session(c):
    S = c.session('shielding_tile')
    S.opaque(SHIELD, 'get_shielding_table')
    S.opaque(SHIELD, 'combine', result='array', like='ms_orig_array')
    for d in DIRECTIONS:
        S.opaque(SHIELD, 'kern_' + d, result='array',
                 shape=lambda b, st: (sym('k1', 'int'), sym('k2', 'int')))
    writers(S)
    return S


def shield_runs(c):
    S = shield_session(c)
    f = S.func(SHIELD, 'convo_combine')
    c.saw(S.where(f))
    args = [sym('ms_file', 'str'), S.array('slope'), S.array('aspect'),
            extent()]
    return S, S.call(f, args), \
        S.call(S.spec('shielding_tile', 'directions'), args)


def topo_opaque(S):
    S.opaque('topographic.make_path', 'make_path', result='array',
             shape=lambda b, st: (mk('len', mk('call', 'repo:path', *[
                 S.ip.term(b[k], st) for k in b])),))
    S.opaque('topographic.multiplier_calc', 'multiplier_calc',
             result='array',
             shape=lambda b, st: (S.M.arr_of(b['line'], st).shape[0],
                                  num(1)))
    S.opaque(TOPO, 'remove_conservatism', result='array', like='mh_in')
    S.opaque(TOPO, 'tasmania', result='array', like='mh_in')


def topo_runs(c):
    S = c.session('topo_tile')
    topo_opaque(S)
    writers(S)
    ds = mk('call', 'gdal.Open', sym('dem', 'str'))
    nr, nc = mk('attr', ds, 'RasterYSize'), mk('attr', ds, 'RasterXSize')
    S.assume(lambda f: (f.ge(nr, num(1)), f.ge(nc, num(1))))
    f = S.func(TOPO, 'topomult')
    c.saw(S.where(f))
    args = [sym('dem', 'str'), extent()]
    return S, S.call(f, args), S.call(S.spec('topo_tile', 'tile'), args)
