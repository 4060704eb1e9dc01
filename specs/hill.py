"""What the hill-shape multiplier has to be (AS/NZS 1170.2, equations for
M_h along one upwind line)."""

import numpy as np

from topographic.findpeaks import findpeaks, findvalleys
from topographic.mh import mh_calc


def steepness(profile, ridge, valley, spacing):
    """Escarpment factor: how the lee side falls compared with the windward
    side, between 0.5 and 3; 1 when the ridge ends the line."""
    n = np.size(profile)
    h = profile[ridge] - profile[valley]
    run = abs(ridge - valley) * spacing
    end = np.minimum(n - 1, np.floor(ridge + run / spacing))
    if (end - ridge) * spacing > 0:
        lee = (profile[int(ridge)] - profile[int(end)]) / \
            ((end - ridge) * spacing)
        f = 2.5 - 1.5 * lee / (h / run)
        return min(max(f, 0.5), 3)
    return 1


def multiplier(profile, ridge, valley, spacing, factor):
    """1 on the whole line for hills lower than 10 m, flatter than 0.05 or
    shorter than one cell; otherwise the hill-shape formula in the zone from
    4 L1 in front of the crest to factor * 4 L1 behind it, at most 1.71."""
    n = np.size(profile)
    out = np.ones((n, 1))
    h = profile[ridge] - profile[valley]
    lu = abs(ridge - valley) * spacing / 2
    if h / (2 * lu) < 0.05 or h < 10 or lu < spacing:
        return out
    l1 = max(0.36 * lu, 0.4 * h)
    l2 = 4 * l1
    first = max(0, int(np.floor(max(0, ridge - np.floor(l2 / spacing)))) - 1)
    last = int(np.floor(min(n - 1, ridge + np.floor(factor * l2 / spacing))
                        + 1))
    for k in range(first, last):
        x = (ridge - k) * spacing
        if 0 <= x < l2:
            out[k] = min(1.71, 1 + h / (3.5 * (10 + l1)) * (1 - x / l2))
        elif x < 0:
            back = factor * l2
            if h / (2 * lu) > 0.45 and x > -h / 4 and abs(factor - 1) < 0.2:
                out[k] = 1 + 0.71 * (1 + x / back)
            elif x > -back:
                out[k] = min(1.71, 1 + h / (3.5 * (10 + l1)) * (1 + x / back))
    return out


def line(profile, spacing):
    """Largest multiplier any hill of the line causes at each cell: every
    ridge (but one at the very start) is paired with the valley before it,
    counted from the upwind end."""
    heights = np.floor(profile)
    ridges = findpeaks(heights)
    valleys = findvalleys(heights)
    out = np.ones((np.size(profile), 1))
    if np.size(ridges) == 0:
        return out
    if ridges[0] == 0:
        for i in range(1, np.size(ridges)):
            out = np.maximum(out, mh_calc(heights, ridges[i], valleys[i - 1],
                                          spacing))
    else:
        for i in range(np.size(ridges)):
            out = np.maximum(out, mh_calc(heights, ridges[i], valleys[i],
                                          spacing))
    return out
