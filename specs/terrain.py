"""What the terrain multiplier has to be."""

import numpy as np
import pandas as pd

from utilities.config import configparser as config


def roughness(data, table):
    """Each land-cover class gets the multiplier of its roughness length;
    classes that are not in the table get 0."""
    out = np.zeros_like(data, np.float32)
    for ix, row in table.iterrows():
        z0 = row['ROUGHNESS_LENGTH_m']
        out[data == row['CATEGORY']] = \
            -0.2827 * np.log(0.4554 * np.log(z0) + 3.734) + 1.0762
    return out


#: steps (rows, columns) towards the wind of each direction
UPWIND = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1),
          'nw': (-1, -1), 'ne': (-1, 1), 'sw': (1, -1), 'se': (1, 1)}


def upwind_mean(direction, data, avg_width, lag_width):
    """Mean of the first avg_width cells that lie more than lag_width cells
    upwind and inside the grid; the cell itself when there is none."""
    dr, dc = UPWIND[direction]
    rows, cols = data.shape
    out = np.zeros_like(data, np.float32)
    for i in range(rows):
        for j in range(cols):
            room = rows + cols
            if dr < 0:
                room = min(room, i)
            if dr > 0:
                room = min(room, rows - 1 - i)
            if dc < 0:
                room = min(room, j)
            if dc > 0:
                room = min(room, cols - 1 - j)
            count = min(room - lag_width, avg_width)
            if count > 0:
                total = 0
                for m in range(count):
                    d = m + 1 + lag_width
                    total = total + data[i + dr * d, j + dc * d]
                out[i, j] = total / count
            else:
                out[i, j] = data[i, j]
    return out


def table():
    """The land-cover classes: the table the configuration names, lines that
    are comments left out."""
    return pd.read_csv(config.get('inputValues', 'terrain_table'),
                       comment='#', index_col=False)
