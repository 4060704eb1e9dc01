"""M3_max: the largest of the eight bands of the combined product, as a
single band on the same grid.

`Converter.process_max_tile` is compared with `specs/combined.py:largest`,
for the first tile and after another one.
"""
from wmcheck import terms as T
from wmcheck.models import IX, elem
from wmcheck.terms import mk, num
from .convert import Tile

LEVEL = 'proof'


def check(c):
    c.minimum = 5
    c.assume('no band has values below the no-data value -9999')

    def go(again=False):
        t = Tile(c, 'process_max_tile', 'largest', again)
        S = t.S
        late = ', after another tile,' if again else ''
        ds = mk('call', 'gdal.Open', t.files[-1])
        for k in range(1, 9):
            x = elem(mk('mcall', mk('mcall', ds, 'GetRasterBand', num(k)),
                        'ReadAsArray'), IX[0], IX[1])
            S.assume(lambda f, x=x: (f.ge(T.add(x, num(9999))),))
        for inst, nm in (('maximum', '.WriteArray'),
                         ('no-data value of', '.SetNoDataValue'),
                         ('georeference', '.SetGeoTransform'),
                         ('file', 'saved')):
            t.same_calls(inst + late, nm, True)
        t.reference(late, t.files[-1:])
        one = []
        for run in (t.run, t.spec):
            ts = [mk('tuple', *e.terms[1:]) for e in run.events('.Create')]
            one.append(T.subst(mk('tuple', *ts), t.same))
        c.equal('one band of the size of the tile' + late.rstrip(','),
                t.where, one[0], one[1], S.base_facts())
        t.mosaic('process_max_tile', late)
    c.attempt('maximum', 'Converter.process_max_tile', go)
    c.attempt('maximum, after another tile', 'Converter.process_max_tile',
              lambda: go(True))
