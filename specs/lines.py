"""What the crests and valleys of a line have to be."""


def crests(y):
    """(crest, the valley it rises from), in the order of the line.

    A crest is a cell above the one before it that does not rise to the
    next; the valley is the last cell before it from which the line rises
    and to which it did not."""
    n = len(y)
    out = []
    for r in range(1, n):
        if y[r] > y[r - 1] and not (r < n - 1 and y[r + 1] > y[r]):
            v = r - 1
            while v > 0 and y[v] > y[v - 1]:
                v = v - 1
            out.append((r, v))
    return out
