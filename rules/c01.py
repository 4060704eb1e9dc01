"""The core of tile (i, j) is exactly the cells [i nx, (i+1) nx) x [j ny,
(j+1) ny) of the raster, for every tile of the ceil(X/nx) x ceil(Y/ny) grid:
the cores cover every cell once; the work list has every tile.

`TileGrid.__init__`, `tile_grid`, `get_gridlimit` are summarised with an
opaque raster and compared with `specs/grid.py`.
"""
from wmcheck import terms as T
from .grid import Grid

LEVEL = 'proof'


def check(c):
    c.minimum = 2

    def go():
        g = Grid(c)
        S = g.S
        w, a = g.method('get_gridlimit', g.k)
        b = g.core()
        c.equal('core of a tile', w, g.term(a), g.term(b), S.base_facts())
        f = S.func('all_multipliers', 'get_tiles')
        c.saw(S.where(f))
        a = S.call(f, [g.obj], st=g.run.st.copy())
        n = T.mul(g.given['C'], g.given['R'])
        b = S.call(S.spec('grid', 'listed'), [g.obj, n],
                   st=g.run.st.copy())
        c.equal('every tile is in the work list', S.where(f), g.term(a),
                g.term(b), S.base_facts())
    c.attempt('core of a tile', 'TileGrid', go)
