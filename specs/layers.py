"""Stand-ins for the libraries shapefiles are read and joined with."""


class Layer(object):
    """An open shapefile."""

    def __init__(self, records, meta):
        self.records = records
        self.meta = meta
        self.written = []
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True

    def __iter__(self):
        return iter(self.records)

    def __len__(self):
        return len(self.records)

    def write(self, record):
        self.written.append((record['geometry'], record['properties'],
                             self.closed))

    def writerecords(self, records):
        for record in records:
            self.write(record)

    def close(self):
        self.closed = True


class Shape(object):
    """A geometry; `common` gives the area it shares with others (None: not
    even a point)."""

    def __init__(self, name, common, area=7, bounds=(1, 2, 3, 4)):
        self.name = name
        self.common = common
        self.area = area
        self.bounds = bounds
        self.is_valid = True
        self.is_empty = area == 0

    def intersects(self, other):
        return shared(self, other) is not None

    def intersection(self, other):
        a = shared(self, other)
        part = Shape(('cut', self.name, other.name), {},
                     0 if a is None else a)
        part.is_empty = a is None
        return part


def shared(a, b):
    if b.name in a.common:
        return a.common[b.name]
    return b.common[a.name]


class Tree(object):
    def __init__(self, shapes, positions):
        self.shapes = shapes
        self.positions = positions

    def query(self, shape, predicate=None):
        out = []
        for k in range(len(self.shapes)):
            if predicate is None or shape.intersects(self.shapes[k]):
                out.append(k if self.positions else self.shapes[k])
        return out


class Pool(object):
    def __init__(self, workers=None):
        self.workers = workers

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def map(self, f, *lists):
        return [f(*args) for args in zip(*lists)]

    def shutdown(self, wait=True):
        pass


class Point(object):
    def __init__(self, x, y):
        self.x = x
        self.y = y
        self.coords = [(x, y)]


class Frame(object):
    """A polygon of given corners."""

    def __init__(self, shell, holes=None):
        self.name = 'frame'
        self.common = {}
        self.corners = [corner(p) for p in shell]
        self.area = 1
        self.is_valid = True
        self.is_empty = False

    def intersects(self, other):
        return shared(self, other) is not None

    def intersection(self, other):
        a = shared(self, other)
        part = Shape(('cut', self.name, other.name), {},
                     0 if a is None else a)
        part.is_empty = a is None
        return part


def corner(p):
    if isinstance(p, Point):
        return (p.x, p.y)
    return (p[0], p[1])


def rectangle(minx, miny, maxx, maxy, ccw=True):
    return Frame([(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)])
