"""The part of a tile that is written: its core, without the buffer."""

import numpy as np


def window(data, x1, x2, y1, y2):
    """Cells x1 <= x < x2, y1 <= y < y2."""
    return data[y1:y2, x1:x2]


def centres(extent, pixelwidth, pixelheight, nx, ny):
    """Longitudes and latitudes of the cell centres, north to south."""
    return ([extent[0] + (i + 0.5) * pixelwidth for i in range(nx)],
            [extent[1] - (j + 0.5) * pixelheight for j in range(ny)])
