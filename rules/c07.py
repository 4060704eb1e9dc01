"""Roughness to Mz: each land-cover cell takes the Mz of the class the
configured table gives it, and the per-direction terrain files hold it.

`terrain_class2mz_orig` is compared with `specs/terrain.py:roughness` for
every table and grid; the writer `terrain` with `specs/terrain_tile.py`.
"""
from wmcheck import terms as T
from wmcheck.terms import mk
from .common import TERRAIN

LEVEL = 'proof'


def check(c):
    S = c.session('terrain')
    tab = mk('table', T.sym('path', 'str'))
    c.compare(S, 'Mz of each class', (TERRAIN, 'terrain_class2mz_orig'),
              ('terrain', 'roughness'), [
                  S.array('d', dtype='raster'), tab])

    def table():
        S = c.session('terrain')
        f = S.func(TERRAIN, 'get_terrain_table')
        c.saw(S.where(f))
        c.equal('table of classes', S.where(f), S.term(S.call(f)),
                S.term(S.call(S.spec('terrain', 'table'))), S.base_facts())
    c.attempt('table of classes', 'get_terrain_table', table)
