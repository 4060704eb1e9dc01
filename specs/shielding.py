"""What the shielding multiplier has to be."""

import numpy as np


#: compass sector of each direction the wind comes from
SECTOR = {'n': 1, 'ne': 2, 'e': 3, 'se': 4, 's': 5, 'sw': 6, 'w': 7,
          'nw': 8}

UPWIND = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1),
          'nw': (-1, -1), 'ne': (-1, 1), 'sw': (1, -1), 'se': (1, 1)}


def percent(data, table):
    """Shielding value of each land-cover class; classes that are not in
    the table do not shield."""
    out = np.ones_like(data, dtype=np.float32)
    for ix, row in table.iterrows():
        out[data == row['CATEGORY']] = row['SHIELDING'] / 100.
    return out


def wedge(direction, size):
    """Weights of a (2 size + 1) square window *as used by a convolution*:
    the cell at window position (a, b) weighs the grid cell (size - a,
    size - b) away.  Equal weights for the upwind cells of the direction,
    adding up to one."""
    dr, dc = UPWIND[direction]
    n = 2 * size + 1
    inside = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            r = size - a
            c = size - b
            if dr != 0 and dc != 0:
                u = r * dr
                v = c * dc
                if u >= 1 and v >= 1 and u + v <= size + 1:
                    inside[a, b] = 1.0
            else:
                u = r * dr + c * dc
                v = r * dc + c * dr
                if u >= 1 and (v == 0 or (u >= 2 and abs(v) <= 1)):
                    inside[a, b] = 1.0
    return inside / inside.sum()


def with_slope(ms, slope, aspect, direction):
    """Shielding value of a direction after slope and conservatism: a slope
    that faces the wind loses shielding linearly from 3.27 degrees on and
    completely from 12.3 degrees on; then values below 0.9 are reduced by
    10 % and the others squared.  Missing stays missing."""
    facing = aspect == SECTOR[direction]
    out = ms.copy()
    steep = facing & (slope >= 12.30)
    middle = facing & (slope > 3.27) & (slope < 12.30)
    w = (slope - 3.27) / (12.30 - 3.27)
    out = np.where(steep, 1.0, np.where(middle, ms + (1.0 - ms) * w, ms))
    out = np.where(out < 0.9, out * 0.9, out ** 2)
    return np.where(np.isnan(ms), np.nan, out)


def sectors(bearing):
    """Sector number (1 = north, clockwise) of a downslope bearing."""
    out = np.zeros_like(bearing, dtype=int)
    out.fill(9)
    for k in range(8):
        centre = 45 * k
        if k == 0:
            inside = ((bearing >= 0) & (bearing < 22.5)) | \
                ((bearing >= 337.5) & (bearing <= 360))
        else:
            inside = (bearing >= centre - 22.5) & (bearing < centre + 22.5)
        out[inside] = k + 1
    return out
