"""The buffered tile is the core widened by int(upwind / cell size) cells on
each side, cut off at the raster's border.

`get_gridlimit_buffer` (through the arrays `tile_grid` fills) is compared
with `specs/grid.py:buffered` for every tile.
"""
from .grid import Grid

LEVEL = 'proof'


def check(c):
    c.minimum = 1

    def go():
        g = Grid(c)
        S = g.S
        w, a = g.method('get_gridlimit_buffer', g.k)
        b = g.buffered()
        c.equal('buffered tile', w, g.term(a), g.term(b), S.base_facts())
    c.attempt('buffered tile', 'TileGrid', go)
