"""Size in metres of the cells of a raster in degrees."""

import numpy as np

from utilities.vincenty import vinc_dist

A = 6378137.0
F = 1 / 298.257223563


def width(gt, i, j):
    """From the west to the east border, along the middle of the row."""
    y = np.radians(gt[3] + (i + 0.5) * gt[5])
    return vinc_dist(F, A, y, np.radians(gt[0] + j * gt[1]),
                     y, np.radians(gt[0] + (j + 1) * gt[1]))[0]


def height(gt, i, j):
    """From the north to the south border, along the middle of the
    column."""
    x = np.radians(gt[0] + (j + 0.5) * gt[1])
    return vinc_dist(F, A, np.radians(gt[3] + i * gt[5]), x,
                     np.radians(gt[3] + (i + 1) * gt[5]), x)[0]


def between(f, gt, rows, cols):
    """f at the first, middle and last row and column, bilinear in
    between."""
    out = np.zeros((rows, cols))
    for i in range(rows):
        for j in range(cols):
            m = rows // 2
            n = cols // 2
            if i < m:
                i0, i1 = 0, m
            else:
                i0, i1 = m, rows - 1
            if j < n:
                j0, j1 = 0, n
            else:
                j0, j1 = n, cols - 1
            s = (i - i0) / max(i1 - i0, 1)
            t = (j - j0) / max(j1 - j0, 1)
            out[i, j] = s * (t * f(gt, i1, j1) + (1 - t) * f(gt, i1, j0)) + \
                (1 - s) * (t * f(gt, i0, j1) + (1 - t) * f(gt, i0, j0))
    return out


def grids(dataset):
    gt = dataset.GetGeoTransform()
    rows, cols = dataset.RasterYSize, dataset.RasterXSize
    return (between(width, gt, rows, cols), between(height, gt, rows, cols))


def cell(dataset, at):
    gt = dataset.GetGeoTransform()
    x, y = at
    return (width(gt, y, x), height(gt, y, x))
