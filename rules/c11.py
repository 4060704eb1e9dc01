"""Slope and conservatism in the shielding value of a direction.

`combine` is compared with `specs/shielding.py:with_slope` for each of the
eight directions and every cell value, slope and sector, missing included.
`shield` is compared with its specified composition: whatever reaches the
files is made of the slope, the sectors and the initial values of this tile.
"""
from wmcheck import terms as T
from .common import SHIELD, DIRECTIONS, direction_key, extent, shield_session

LEVEL = 'proof'


def check(c):
    S = c.session('shielding')
    c.minimum = 8
    sh = (T.sym('r', 'int'), T.sym('c', 'int'))
    for d in DIRECTIONS:
        c.compare(S, 'combine, direction ' + d, (SHIELD, 'combine'),
                  ('shielding', 'with_slope'),
                  [S.array('ms', sh), S.array('slope', sh),
                   S.array('aspect', sh), T.string(d)])

    def step():
        # The parts are followed on both sides, so that the comparison is
        # about the values that reach the files.
        S = shield_session(c)
        S.opaque(SHIELD, 'reclassify_aspect', result='array', like='data')
        f = S.func(SHIELD, 'shield')
        c.saw(S.where(f))
        args = [T.sym('tile', 'str'), T.sym('dem', 'str'), extent()]
        c.events(S, 'shielding step, file', S.call(f, args),
                 S.call(S.spec('shielding_tile', 'step'), args),
                 'repo:save_multiplier', key=direction_key)
    c.attempt('shielding step', SHIELD + '.shield', step)
