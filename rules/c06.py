"""Terrain: every cell of a direction holds the mean of the first avg_width
cells more than lag_width cells upwind, itself when there is none.

`convo` and the functions it calls are summarised (closed forms of its loops)
and compared with the specification `specs/terrain.py:upwind_mean` for every
grid size, lag and averaging width.
"""
from wmcheck import terms as T
from wmcheck.terms import num

LEVEL = 'proof'
DIRECTIONS = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']


def check(c):
    S = c.session('terrain')
    lag, avg = T.sym('lag', 'int'), T.sym('avg', 'int')
    S.assume(lambda f: (f.ge(lag), f.ge(avg),
                        f.ge(S.shape('d', 0), num(1)),
                        f.ge(S.shape('d', 1), num(1))))
    c.assume('lag_width >= 0, avg_width >= 0, non-empty grid; reals for '
             'floats')
    c.minimum = 8
    for d in DIRECTIONS:
        c.compare(S, 'upwind mean, direction ' + d,
                  ('terrain.terrain_mult', 'convo'),
                  ('terrain', 'upwind_mean'),
                  [T.string(d), S.array('d'), avg, lag])
