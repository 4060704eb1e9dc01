"""Shielding windows: the convolution kernel of a direction weighs exactly
the cells upwind of it, equally, with weights adding up to one; the grid
convolved and masked per direction is written to that direction's file.

Every `kern_<d>` (with the blocks it is composed of) is compared with
`specs/shielding.py:wedge` for every kernel size.
"""
from wmcheck import terms as T
from wmcheck.terms import num
from .common import SHIELD, DIRECTIONS, shield_runs, direction_key

LEVEL = 'proof'


def check(c):
    S = c.session('shielding')
    size = T.sym('size', 'int')
    S.assume(lambda f: (f.ge(size, num(1)),))
    c.assume('kernel size >= 1')
    c.minimum = 9
    for d in DIRECTIONS:
        c.compare(S, 'window of direction ' + d, (SHIELD, 'kern_' + d),
                  ('shielding', 'wedge'), [size], [T.string(d), size])

    def go():
        S, a, b = shield_runs(c)
        c.events(S, 'written', a, b, 'repo:save_multiplier',
                 key=direction_key)
    c.attempt('written per direction', SHIELD + '.convo_combine', go)
