"""Tiles of one degree over a raster, numbered down each column of tiles."""

import numpy as np


def cells(pixel):
    """Cells of a tile along one axis: one degree, rounded up."""
    return int(np.ceil(1.0 / pixel))


def core(k, across, down, nx, ny):
    """Cells x1 <= x < x2, y1 <= y < y2 tile k covers of a raster of
    `across` x `down` cells cut into tiles of nx x ny cells."""
    rows = int(np.ceil(down / ny))
    i = k // rows
    j = k % rows
    return (i * nx, min(i * nx + nx, across), j * ny,
            min(j * ny + ny, down))


def buffered(k, across, down, nx, ny, bx, by):
    """The core widened by bx and by cells on every side, as far as the
    raster goes."""
    rows = int(np.ceil(down / ny))
    i = k // rows
    j = k % rows
    return (max(0, i * nx - bx), min(i * nx + nx + bx, across),
            max(0, j * ny - by), min(j * ny + ny + by, down))


def number(across, down, nx, ny):
    return int(np.ceil(across / nx)) * int(np.ceil(down / ny))


def extent(limits, gt):
    """Coordinates of the upper left and the lower right corner."""
    x1, x2, y1, y2 = limits
    return (gt[0] + x1 * gt[1], gt[3] + y1 * gt[5],
            gt[0] + x2 * gt[1], gt[3] + y2 * gt[5])


def name(limits, gt):
    """e<longitude>s<southern latitude> of the upper left corner of the
    core."""
    x1, x2, y1, y2 = limits
    return 'e' + str(gt[0] + x1 * gt[1])[:8] + \
        's' + str(-(gt[3] + y1 * gt[5]))[:7]


def work(n, names, buffered_extents, core_extents):
    return [[names[k], buffered_extents[k], core_extents[k]]
            for k in range(n)]


def tiling(gt, across, down, upwind):
    """(tile columns, tile rows, cells of a tile and of its buffer)."""
    nx, ny = cells(gt[1]), cells(-gt[5])
    return (int(np.ceil(across / nx)), int(np.ceil(down / ny)), nx, ny,
            int(upwind / gt[1]), int(upwind / -gt[5]))


def listed(grid, n):
    """Every tile once: name, extent with buffer, extent of the core."""
    return [[grid.get_tilename(k), grid.get_tile_extent_buffer(k),
             grid.get_tile_extent(k)] for k in range(n)]
