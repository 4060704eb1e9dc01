"""Terrain tile: per direction the mean of the Mz grid, no data where the
land cover has none, under the name of that direction.

All calls of `save_multiplier` that `terrain` makes are compared one to one
(condition, grid, coordinates, file name) with `specs/terrain_tile.py`.
"""
from .common import TERRAIN, terrain_runs, direction_key

LEVEL = 'proof'


def check(c):
    c.minimum = 8

    def go():
        S, a, b = terrain_runs(c)
        c.events(S, 'written', a, b, 'repo:save_multiplier',
                 key=direction_key)
    c.attempt('terrain files', TERRAIN + '.terrain', go)
