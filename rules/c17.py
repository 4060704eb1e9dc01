"""M3: band k of a tile is the product of the three multipliers of the tile
and of direction k, -9999 where one of them is missing.

`Converter.process_tile` is summarised for an arbitrary tile with all files
there, as the first tile and after another one, and compared, band by band,
with `specs/combined.py:product`.
"""
from .convert import Tile

LEVEL = 'proof'


def check(c):
    c.minimum = 16
    c.assume('every multiplier file can be opened (otherwise: C19)')

    def go(again=False):
        t = Tile(c, 'process_tile', 'product', again)
        late = ', after another tile,' if again else ''
        for inst, nm in (('product', '.WriteArray'),
                         ('name of', '.SetDescription'),
                         ('no-data value of', '.SetNoDataValue'),
                         ('georeference', '.SetGeoTransform'),
                         ('file', 'saved')):
            t.same_calls(inst + late, nm, True)
        t.reference(late)
        t.sizes(late)
        t.mosaic('process_tile', late)
    c.attempt('product', 'Converter.process_tile', go)
    c.attempt('product, after another tile', 'Converter.process_tile',
              lambda: go(True))
