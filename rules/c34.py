"""Pixel sizes belong to the cell they are given for.

The distance on the ellipsoid is a named, symmetric function of two points;
rasters are in degrees, so that the change to latitude and longitude is the
identity.  What is computed for one cell, for four points, and for the whole
grid is compared with `specs/pixel.py` for every shape.
"""
from wmcheck import terms as T
from wmcheck.terms import mk, num, add, mul
from wmcheck.values import Tup
from .common import GRID, sym

LEVEL = 'proof'
A, F = 6378137.0, 1 / 298.257223563


def distances(c, S, seen):
    """vinc_dist is one function of its two points, in any order; the
    ellipsoid it is given is recorded."""
    f = S.func('utilities.vincenty', 'vinc_dist')
    names = [a.arg for a in f.node.args.args]

    def hook(args, kwargs, st, node):
        ip = S.ip
        b = ip.bind_args(f, args, kwargs, st, node)
        v = [ip.term(b[n], st) for n in names[:6]]
        seen.append((v[0], v[1], node))
        # an unordered pair, as its symmetric polynomials
        t = mk('call', 'repo:vinc_dist', add(v[2], v[4]), add(v[3], v[5]),
               mul(v[2], v[4]), mul(v[3], v[5]),
               add(mul(v[2], v[5]), mul(v[3], v[4])))
        return Tup([mk('fn', 'real', mk('item', t, num(k)))
                    for k in range(3)])
    S.M.overrides['utilities.vincenty.vinc_dist'] = hook


def session(c, seen):
    S = c.session('pixel')
    S.M.geographic = True
    distances(c, S, seen)
    ds = sym('dataset', 'obj')
    for n in ('RasterYSize', 'RasterXSize'):
        S.assume(lambda f, n=n: f.ge(mk('attr', ds, n), num(1)))
    return S, ds


def near(t, want, tol):
    if t.op != 'num':
        return None
    return abs(float(t.args[0]) - want) <= tol


def reference(c):
    """Points are turned from the reference system of the raster into
    longitude and latitude."""
    S, ds = session(c, [])
    S.M.geographic = False
    f = S.func(GRID, 'get_pixel_size')
    run = S.call(f, [ds, Tup([sym('x', 'int'), sym('y', 'int')])])
    inst, where = 'points are turned into degrees', S.where(f)
    wkt = [mk('mcall', ds, n) for n in ('GetProjection', 'GetProjectionRef')]
    given = [e for e in run.trace if e.name.startswith('.ImportFrom')]
    turned = [e.result.args[0] for e in run.events('.TransformPoint')
              if isinstance(e.result, T.Term) and e.result.op == 'mcall']
    if not turned or S.ip.notes:
        c.undecided(inst, where, 'no point is turned')
        return
    bad, open_ = [], []
    for t in {repr(t): t for t in turned}.values():
        if t.op != 'call' or t.args[0] != 'osr.CoordinateTransformation' \
                or len(t.args) != 3:
            open_.append('of another kind')
            continue
        a, b = t.args[1:]

        def clone(x):
            return x.args[0] if x.op == 'mcall' and \
                x.args[1] == 'CloneGeogCS' else None
        if clone(a) is b:
            bad.append('longitude and latitude are taken for positions of '
                       'the raster')
            continue
        if clone(b) is not a:
            open_.append('to another reference system')
            continue
        if a.op != 'call' or a.args[0] != 'osr.SpatialReference':
            open_.append('from another reference system')
            continue
        if len(a.args) > 1:
            if a.args[1] not in wkt:
                open_.append('from another reference system')
            continue
        mine = [e for e in given if e.terms and e.terms[0] is a]
        if not given:
            bad.append('from a reference system that is empty')
        elif not all(e.name == '.ImportFromWkt' and e.terms[1] in wkt
                     for e in mine):
            open_.append('from another reference system')
    c.judge(inst, False if bad else None if open_ else True, where,
            '; '.join(bad or open_))


def check(c):
    seen = []
    S, ds = session(c, seen)
    f = S.func(GRID, 'get_pixel_size')
    c.compare(S, 'size of one cell', (GRID, 'get_pixel_size'),
              ('pixel', 'cell'), [ds, Tup([sym('x', 'int'),
                                           sym('y', 'int')])])
    mine = [s for s in seen if getattr(s[2], 'lineno', 0) and
            s[0].op == 'num']
    c.judge('distances on the WGS84 ellipsoid', None if not seen else
            None if any(near(fl, F, 1) is None or near(a, A, 1) is None
                        for fl, a, n in seen) else
            all(near(fl, F, 1e-8) and near(a, A, 0.5) for fl, a, n in seen),
            S.where(f), '%s' % [(T.show(fl, 3), T.show(a, 3))
                                for fl, a, n in seen[:2]])
    c.attempt('reference system', GRID, lambda: reference(c))
    for k, part in enumerate(('width', 'height')):
        seen = []
        S, ds = session(c, seen)
        c.compare(S, part + ' of every cell', (GRID, 'get_pixel_size_grids'),
                  ('pixel', 'grids'), [ds],
                  value=lambda t, k=k: t.args[k])
    c.minimum = 3
