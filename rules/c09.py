"""Initial shielding value: SHIELDING/100 of each land-cover class, 1 for
classes without one, missing where the land cover is missing.

`terrain_class2ms_orig` is compared with `specs/shielding_tile.py:initial`:
the raster it creates (size, type, georeference), the grid it writes, the
name it returns.
"""
from wmcheck import terms as T
from .common import SHIELD, shield_session

LEVEL = 'proof'


def check(c):
    c.minimum = 4

    def go():
        S = shield_session(c)
        f = S.func(SHIELD, 'terrain_class2ms_orig')
        c.saw(S.where(f))
        args = [T.sym('tile', 'str')]
        a = S.call(f, args)
        b = S.call(S.spec('shielding_tile', 'initial'), args)
        for nm in ['.WriteArray', '.Create', '.SetGeoTransform',
                   '.SetProjection']:
            c.events(S, 'initial raster ' + nm[1:], a, b, nm)
        c.equal('name of the raster', S.where(f), S.term(a), S.term(b),
                S.base_facts())
    c.attempt('initial shielding', SHIELD + '.terrain_class2ms_orig', go)

    def table():
        S = c.session('terrain')
        f = S.func(SHIELD, 'get_shielding_table')
        c.saw(S.where(f))
        c.equal('table of classes', S.where(f), S.term(S.call(f)),
                S.term(S.call(S.spec('terrain', 'table'))), S.base_facts())
    c.attempt('table of classes', 'get_shielding_table', table)
