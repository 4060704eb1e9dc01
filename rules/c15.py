"""What becomes of the hill-shape multiplier of a tile: less conservatism,
Tasmania, 3x3 mean, no data where the DEM has none.

`remove_conservatism` and `tasmania` are compared with `specs/topo_tile.py`
for every cell; what `topomult` writes with `specs/topo_tile.py:tile`.
"""
from wmcheck import terms as T
from .common import TOPO, topo_runs, direction_key

LEVEL = 'proof'


def check(c):
    S = c.session('topo_tile')
    c.minimum = 3
    sh = (T.sym('r', 'int'), T.sym('c', 'int'))
    c.compare(S, 'conservatism', (TOPO, 'remove_conservatism'),
              ('topo_tile', 'softer'), [S.array('mh', sh)])
    c.compare(S, 'Tasmania above 500 m', (TOPO, 'tasmania'),
              ('topo_tile', 'high'), [S.array('mh', sh),
                                      S.array('dem', sh)])

    def go():
        S, a, b = topo_runs(c)
        c.events(S, 'written', a, b, 'repo:save_multiplier',
                 key=direction_key)
    c.attempt('topographic files', TOPO + '.topomult', go, 300)
