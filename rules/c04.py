"""Output window: for a tile extent that falls on the cell grid (up to a
quarter of a cell of rounding error) `clip_array` returns exactly the cells
of the extent, and `get_lat_lon` the centres of those cells.

Both are compared with `specs/window.py` for every grid, position and size.
"""
from wmcheck import terms as T
from wmcheck.terms import num, add, sub, mul, mk, neg
from wmcheck.values import Tup
from fractions import Fraction
from .common import NC, sym

LEVEL = 'proof'


def on_grid(S, shape=None):
    """An extent on the cell grid, each corner off by less than 1/8 cell."""
    x1, x2, y1, y2 = [sym(s, 'int') for s in ('x1', 'x2', 'y1', 'y2')]
    pw, ph, left, top = [sym(s) for s in ('pw', 'ph', 'left', 'top')]
    er = [sym('err%d' % i) for i in range(4)]
    q = mk('num', Fraction(1, 8))
    S.assume(lambda f: [(f.gt(q, e), f.gt(add(e, q))) for e in er])
    S.assume(lambda f: (f.gt(pw), f.gt(ph), f.ge(x1), f.ge(y1),
                        f.ge(sub(x2, x1), num(1)), f.ge(sub(y2, y1),
                                                        num(1))))
    if shape:
        S.assume(lambda f: (f.ge(shape[0], y2), f.ge(shape[1], x2)))
    ext = Tup([add(left, mul(pw, add(x1, er[0]))),
               sub(top, mul(ph, add(y1, er[1]))),
               add(left, mul(pw, add(x2, er[2]))),
               sub(top, mul(ph, add(y2, er[3])))])
    return ext, (x1, x2, y1, y2), pw, ph, left, top


def check(c):
    c.minimum = 2
    S = c.session('window')
    sh = (sym('rows', 'int'), sym('cols', 'int'))
    ext, (x1, x2, y1, y2), pw, ph, left, top = on_grid(S, sh)
    c.assume('the extent lies on the cell grid within 1/8 of a cell, inside '
             'the array, and is not empty')
    c.compare(S, 'cells of the output window', (NC, 'clip_array'),
              ('window', 'window'),
              [S.array('d', sh), left, neg(top), pw, ph, ext],
              [S.array('d', sh), x1, x2, y1, y2])
    c.compare(S, 'centres of the output cells', (NC, 'get_lat_lon'),
              ('window', 'centres'), [ext, pw, ph],
              [ext, pw, ph, sub(x2, x1), sub(y2, y1)])
