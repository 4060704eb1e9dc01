"""Coordinates of a tile: the extents are the coordinates of the cell
borders of its core and of its buffered window, and its name holds the
upper left corner of the core; the work list has name, buffered extent and
core extent of each tile, in that order.

`get_tile_extent`, `get_tile_extent_buffer`, `get_tilename`, `get_tiles` are
compared with `specs/grid.py` for every raster and tile.
"""
from wmcheck import terms as T
from .grid import Grid
from .common import MAIN

LEVEL = 'proof'


def check(c):
    c.minimum = 3

    def go():
        g = Grid(c)
        S = g.S
        fs = S.base_facts()
        core, buf = S.call(S.spec('grid', 'extent'), [g.core().value, g.gt]),\
            S.call(S.spec('grid', 'extent'), [g.buffered().value, g.gt])
        w, a = g.method('get_tile_extent', g.k)
        c.equal('extent of the core', w, g.term(a), g.term(core), fs)
        w, a = g.method('get_tile_extent_buffer', g.k)
        c.equal('extent with buffer', w, g.term(a), g.term(buf), fs)
        w, a = g.method('get_tilename', g.k)
        b = S.call(S.spec('grid', 'name'), [g.core().value, g.gt])
        c.equal('name of a tile', w, g.term(a), g.term(b), fs)
    c.attempt('coordinates of a tile', 'TileGrid', go)
