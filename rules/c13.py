"""Topographic lines: for each direction the lines start at every cell of
the upwind border, run with the wind to the other border, and the multiplier
found for a line is stored in the cells of that line.

`make_path` is compared with `specs/topo_tile.py:walk` (every grid, start
cell and direction); everything `topomult` writes with
`specs/topo_tile.py:tile`.
"""
from wmcheck import terms as T
from wmcheck.terms import num
from .common import DIRECTIONS, TOPO, topo_runs, direction_key

LEVEL = 'proof'


def check(c):
    S = c.session('topo_tile')
    n = lambda s: T.sym(s, 'int')
    nr, nc, i0, j0 = n('nr'), n('nc'), n('i0'), n('j0')
    start = T.add(i0, T.mul(j0, nr))
    S.assume(lambda f: (f.ge(nr, num(1)), f.ge(nc, num(1)), f.ge(i0),
                        f.gt(nr, i0), f.ge(j0), f.gt(nc, j0)))
    c.assume('the start cell lies in the grid')
    c.minimum = 9
    for d in DIRECTIONS:
        c.compare(S, 'line of direction ' + d,
                  ('topographic.make_path', 'make_path'),
                  ('topo_tile', 'walk'), [nr, nc, start, T.string(d)])

    def go():
        S, a, b = topo_runs(c)
        c.events(S, 'written', a, b, 'repo:save_multiplier',
                 key=direction_key)
    c.attempt('topographic files', TOPO + '.topomult', go, 300)
