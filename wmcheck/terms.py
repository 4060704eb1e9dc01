"""Hash-consed value terms and their normal forms.

Every abstract value the analysis computes is a term.  Arithmetic terms are
kept as polynomials with exact rational coefficients, comparisons as a sign
condition on one polynomial, booleans as flattened and/or, strings as
flattened concatenations, and everything quantified by a loop as a binder
whose bound variables are named canonically.  Two expressions that the
normaliser can identify are therefore the *same object*.

Nothing here executes code of the analysed program.
"""

from fractions import Fraction
import math


class Term(object):
    __slots__ = ('op', 'args', 'uid', '_kind', '_lvl', '_size', '_free')

    def __repr__(self):
        return show(self)


_TABLE = {}
_SYMS = {}


def mk(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.uid = len(_TABLE)
        t._kind = None
        t._lvl = None
        t._size = None
        t._free = None
        _TABLE[key] = t
    return t


# --------------------------------------------------------------- constants

def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else neg(INF)
        return mk('num', Fraction(repr(x)))
    return mk('num', Fraction(x))


def string(s):
    return mk('str', s)


TRUE = mk('bool', True)
FALSE = mk('bool', False)
NONE = mk('none')
NAN = mk('nan')
INF = mk('inf')


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, str):
        return string(v)
    if isinstance(v, bytes):
        return mk('bytes', v)
    if v is Ellipsis:
        return mk('ellipsis')
    return mk('pyconst', repr(v))


def is_const(t):
    return isinstance(t, Term) and t.op in ('num', 'str', 'bool', 'none',
                                            'nan', 'bytes')


def const_value(t):
    """Python value of a constant term (KeyError when not constant)."""
    if t.op == 'num':
        v = t.args[0]
        return int(v) if v.denominator == 1 else v
    if t.op in ('str', 'bool', 'bytes'):
        return t.args[0]
    if t.op == 'none':
        return None
    raise KeyError(t)


def sym(name, kind='any', **flags):
    """An opaque input of the analysis."""
    return mk('sym', name, kind, tuple(sorted(flags.items())))


def flag(t, name):
    if t.op == 'sym':
        return dict(t.args[2]).get(name)
    return None


_FRESH = [0]


def fresh(prefix, kind='int', **flags):
    _FRESH[0] += 1
    return sym('%s#%d' % (prefix, _FRESH[0]), kind, **flags)


# --------------------------------------------------------------- kinds

INT_OPS = {'floor', 'trunc', 'rint', 'len', 'count', 'size', 'shape'}
BOOL_OPS = {'bool', 'lt', 'le', 'eq', 'and', 'or', 'not', 'isnan', 'in',
            'is', 'exists', 'isinstance', 'raises', 'truth'}
INT_ATTRS = {'RasterXSize', 'RasterYSize', 'RasterCount', 'size', 'rank',
             'ndim'}


def kind(t):
    """'int', 'num' (float or unknown number), 'bool', 'str' or 'any'."""
    k = t._kind
    if k is None:
        k = t._kind = _kind(t)
    return k


def _kind(t):
    op = t.op
    if op == 'num':
        return 'int' if t.args[0].denominator == 1 else 'num'
    if op == 'poly':
        for mono, c in t.args:
            if c.denominator != 1:
                return 'num'
            for a, e in mono:
                if e < 0 or kind(a) not in ('int', 'bool'):
                    return 'num'
        return 'int'
    if op in INT_OPS:
        return 'int'
    if op in BOOL_OPS:
        return 'bool'
    if op in ('cat', 'str', 'pjoin', 'dirname', 'basename', 'strslice',
              'tostr', 'lower', 'upper', 'stem', 'suffix', 'cfg', 'strop'):
        return 'str'
    if op == 'tofloat':
        return 'num'
    if op == 'toint':
        return 'int'
    if op == 'sym':
        return t.args[1]
    if op == 'bv':
        return 'int'
    if op in ('min', 'abs'):
        ks = {kind(a) for a in t.args}
        return 'int' if ks <= {'int'} else 'num'
    if op == 'ite':
        a, b = kind(t.args[1]), kind(t.args[2])
        return a if a == b else ('num' if {a, b} <= {'int', 'num', 'bool'}
                                 else 'any')
    if op == 'attr':
        return 'int' if t.args[1] in INT_ATTRS else 'any'
    if op == 'mcall' and t.args[1] in ('Checksum', 'Get_rank', 'Get_size'):
        return 'int'
    if op == 'item' and t.args[0].op == 'mcall' and \
            t.args[0].args[1] == 'GetGeoTransform':
        return 'num'
    if op in ('nan', 'inf', 'inv', 'sqrt', 'fn', 'isint'):
        return 'num'
    if op == 'B' and t.args[0] == 'sum':
        return kind(t.args[3][1]) if kind(t.args[3][1]) == 'int' else 'num'
    if op == 'B' and t.args[0] == 'count':
        return 'int'
    return 'any'


def is_int(t):
    return kind(t) == 'int'


def numericish(t):
    return kind(t) in ('int', 'num', 'any', 'bool')


# --------------------------------------------------------------- polynomials

def _mono_key(m):
    return tuple((a.uid, e) for a, e in m)


def to_poly(t):
    if t.op == 'num':
        v = t.args[0]
        return {(): v} if v else {}
    if t.op == 'poly':
        return dict(t.args)
    if t.op == 'bool':
        return {(): Fraction(1)} if t.args[0] else {}
    return {((t, 1),): Fraction(1)}


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return mk('num', Fraction(0))
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    return mk('poly', *items)


def has_nan(t):
    return t.op == 'nan'


def add(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(a):
    return scale(a, Fraction(-1))


def scale(a, k):
    if a.op == 'nan':
        return NAN
    if k == 1:
        return a
    return from_poly({m: c * k for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mul_mono(m1, m2):
    """-> (coefficient, monomial, extra term or None)"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    out = []
    for a, e in d.items():
        if not e:
            continue
        if a.op == 'sqrt' and abs(e) >= 2:
            q, r = divmod(e, 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            x = power(a.args[0], q)
            extra = x if extra is None else mul(extra, x)
            if r:
                out.append((a, r))
        elif kind(a) == 'bool' and e > 1:
            out.append((a, 1))
        else:
            out.append((a, e))
    out.sort(key=lambda ae: ae[0].uid)
    return tuple(out), extra


MAXPOLY = 400


def mul(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'num':
        return scale(b, a.args[0])
    if b.op == 'num':
        return scale(a, b.args[0])
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > MAXPOLY:
        x, y = sorted((a, b), key=lambda t: t.uid)
        return mk('bigmul', x, y)
    out = {}
    extras = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, extra = _mul_mono(m1, m2)
            if extra is not None:
                extras.append(mul(from_poly({m: c1 * c2}), extra))
            else:
                out[m] = out.get(m, 0) + c1 * c2
    t = from_poly(out)
    for e in extras:
        t = add(t, e)
    return t


def lead(t):
    """Coefficient of the first monomial (sign normalisation)."""
    if t.op == 'num':
        return t.args[0]
    if t.op == 'poly':
        for m, c in t.args:
            if m:
                return c
        return t.args[0][1]
    return Fraction(1)


def inv(a):
    if a.op == 'nan':
        return NAN
    if a.op == 'num':
        if a.args[0] == 0:
            return mk('inv', a)
        return mk('num', 1 / a.args[0])
    if a.op == 'inv':
        return a.args[0]
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    c = lead(a)
    return scale(mk('inv', scale(a, 1 / c)), 1 / c)


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    if isinstance(n, Term):
        if n.op != 'num':
            return mk('fn', 'pow', a, n)
        n = n.args[0]
    n = Fraction(n)
    if n == Fraction(1, 2):
        return sqrt(a)
    if n.denominator != 1 or abs(n) > 12:
        if a.op == 'num' and n.denominator == 1:
            return mk('num', a.args[0] ** int(n))
        return mk('fn', 'pow', a, mk('num', n))
    n = int(n)
    if n < 0:
        return inv(power(a, -n))
    out = num(1)
    for _ in range(n):
        out = mul(out, a)
    return out


def sqrt(a):
    if a.op == 'num' and a.args[0] >= 0:
        v = a.args[0]
        rn, rd = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if rn * rn == v.numerator and rd * rd == v.denominator:
            return mk('num', Fraction(rn, rd))
    if a.op == 'nan':
        return NAN
    return mk('sqrt', a)


# integers known to be positive
POSITIVE = []


def floor(a):
    """Greatest integer not above a; integer summands are pulled out."""
    if a.op == 'nan':
        return NAN
    if is_int(a):
        return a
    whole, rest = {}, {}
    for m, c in to_poly(a).items():
        if c.denominator == 1 and all(e > 0 and is_int(x) for x, e in m):
            whole[m] = c
        elif not m:
            fl = c.numerator // c.denominator
            whole[m] = Fraction(fl)
            rest[m] = c - fl
        else:
            rest[m] = c
    r = from_poly(rest)
    if r.op == 'num':
        f = mk('num', Fraction(r.args[0].numerator // r.args[0].denominator))
    else:
        f = None
        for s in POSITIVE:
            w = mul(r, s)
            if to_poly(w).get((), 0) == -1 and is_int(w):
                # (n - 1) // s is one less than n / s rounded up
                f = sub(neg(floor(neg(div(add(w, num(1)), s)))), num(1))
                break
        if f is None:
            f = mk('floor', r)
    return add(from_poly(whole), f)


def ceil(a):
    return neg(floor(neg(a)))


def floordiv(a, b):
    if b.op == 'num' and b.args[0] == 1:
        return floor(a)
    return floor(div(a, b))


def mod(a, b):
    return sub(a, mul(b, floordiv(a, b)))


def trunc(a):
    if a.op == 'nan':
        return NAN
    if is_int(a):
        return a
    if a.op == 'num':
        v = a.args[0]
        return num(int(v))
    if kind(a) == 'bool':
        return a
    return mk('trunc', a)


def rint(a):
    if a.op == 'nan':
        return NAN
    if is_int(a):
        return a
    if a.op == 'num':
        return num(round(a.args[0]))
    p = to_poly(a)
    c = p.pop((), Fraction(0))
    rest = from_poly(p)
    if c and (2 * c).denominator != 1 and is_int(rest):
        return add(rest, num(round(c)))
    return mk('rint', a)


NONNEG = {'len', 'count', 'size', 'shape', 'sqrt', 'abs'}


def nonneg(a):
    return a.op in NONNEG or (a.op == 'sym' and flag(a, 'nn')) or \
        (a.op == 'attr' and a.args[-1] in ('RasterXSize', 'RasterYSize')) or \
        (a.op == 'B' and a.args[0] == 'count')


def bound_below(t):
    """A constant lower bound from the signs of the atoms, or None."""
    b = Fraction(0)
    for m, c in to_poly(t).items():
        if not m:
            b += c
        elif c < 0:
            return None
        elif not all(e > 0 and (e % 2 == 0 and kind(a) in ('int', 'num') or
                                nonneg(a)) for a, e in m):
            return None
    return b


def tmin(*args):
    flat = []
    best = inf = None
    for a in args:
        for x in (a.args if a.op == 'min' else (a,)):
            if x.op == 'nan':
                return NAN
            if x.op == 'num':
                best = x.args[0] if best is None else min(best, x.args[0])
            elif x.op == 'inf':
                inf = x
            else:
                flat.append(x)
    if inf is not None and best is None and not flat:
        return inf
    flat = sorted(set(flat), key=lambda t: t.uid)
    if best is not None and flat:
        # what is known without facts about signs
        for x in list(flat):
            b = bound_below(x)
            if b is not None and b >= best:
                flat.remove(x)
                continue
            b = bound_below(neg(x))
            if b is not None and -b <= best:
                best = None
                break
        if not flat:
            return mk('num', best)
    # constant differences: drop the larger one
    keep = []
    for x in flat:
        dominated = False
        for y in flat:
            if x is not y:
                d = sub(x, y)
                if d.op == 'num' and d.args[0] > 0:
                    dominated = True
        if not dominated:
            keep.append(x)
    if best is not None:
        keep.append(mk('num', best))
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda t: t.uid)
    return mk('min', *keep)


def tmax(*args):
    return neg(tmin(*[neg(a) for a in args]))


def tabs(a):
    if a.op == 'nan':
        return NAN
    if a.op == 'num':
        return mk('num', abs(a.args[0]))
    if a.op == 'abs':
        return a
    c = lead(a)
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return scale(mk('abs', from_poly({m: Fraction(1)})), abs(c))
    if c < 0:
        a = neg(a)
    return mk('abs', a)


FN_CONST = {
    ('log', Fraction(1)): Fraction(0),
    ('exp', Fraction(0)): Fraction(1),
    ('sin', Fraction(0)): Fraction(0),
    ('cos', Fraction(0)): Fraction(1),
    ('tan', Fraction(0)): Fraction(0),
    ('arctan', Fraction(0)): Fraction(0),
}
ODD = {'sin', 'tan', 'arctan', 'arcsin'}
EVEN = {'cos'}


def fn(name, *args):
    """Uninterpreted real function with parity normalisation."""
    if any(a.op == 'nan' for a in args):
        return NAN
    if len(args) == 1:
        a = args[0]
        if a.op == 'num' and (name, a.args[0]) in FN_CONST:
            return mk('num', FN_CONST[(name, a.args[0])])
        if name in ODD and lead(a) < 0:
            return neg(mk('fn', name, neg(a)))
        if name in EVEN and lead(a) < 0:
            return mk('fn', name, neg(a))
    if name == 'hypot' and len(args) == 2:
        return sqrt(add(power(args[0], 2), power(args[1], 2)))
    return mk('fn', name, *args)


# --------------------------------------------------------------- booleans

def _normal_scale(d):
    """Divide a polynomial by the positive content of its coefficients."""
    p = to_poly(d)
    nums = [c for m, c in p.items() if m] or list(p.values())
    g = 0
    lcm = 1
    for c in nums:
        lcm = lcm * c.denominator // math.gcd(lcm, c.denominator)
    for c in nums:
        g = math.gcd(g, int(c * lcm))
    if g == 0:
        return d
    return scale(d, Fraction(lcm, g))


def lt0(d):
    """d < 0"""
    if d.op == 'nan':
        return FALSE
    if d.op == 'num':
        return TRUE if d.args[0] < 0 else FALSE
    if d.op == 'inf':
        return FALSE
    d = _normal_scale(d)
    if is_int(d):
        return le0(add(d, num(1)))
    return mk('lt', d)


def le0(d):
    if d.op == 'nan':
        return FALSE
    if d.op == 'num':
        return TRUE if d.args[0] <= 0 else FALSE
    if d.op == 'inf':
        return FALSE
    d = _normal_scale(d)
    if is_int_scaled(d):
        # integer valued linear part: tighten the constant
        p = to_poly(d)
        c = p.get((), Fraction(0))
        p[()] = Fraction(-((-c).numerator // (-c).denominator))
        d = from_poly(p)
        if d.op == 'num':
            return TRUE if d.args[0] <= 0 else FALSE
    if d.op == 'poly':
        b = bound_below(d)
        if b is not None and b > 0:
            return FALSE
        b = bound_below(neg(d)) if is_int_scaled(d) else None
        if b is not None and b >= 0:
            return TRUE
    return mk('le', d)


def is_int_scaled(d):
    if d.op != 'poly':
        return is_int(d)
    for m, c in d.args:
        if not m:
            continue
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or kind(a) not in ('int', 'bool'):
                return False
    return True


def eq0(d):
    if d.op == 'nan':
        return FALSE
    if d.op == 'num':
        return TRUE if d.args[0] == 0 else FALSE
    d = _normal_scale(d)
    if lead(d) < 0:
        d = neg(d)
    if d.op == 'poly':
        for x in (d, neg(d)):
            b = bound_below(x)
            if b is not None and b > 0:
                return FALSE
    return mk('eq', d)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


STRUCT_OPS = {'str', 'cat', 'none', 'tuple', 'list', 'dict', 'pjoin',
              'bytes', 'tostr', 'basename', 'dirname', 'obj', 'func',
              'class', 'inst', 'ext', 'module'}


def eq(a, b):
    if a is b:
        if a.op == 'nan':
            return FALSE
        return TRUE     # NaN != NaN only matters for floats; see neq_nan
    if a.op in STRUCT_OPS or b.op in STRUCT_OPS or kind(a) == 'str' \
            or kind(b) == 'str':
        ca, cb = is_const(a), is_const(b)
        if ca and cb:
            return FALSE
        definite = ('none', 'str', 'bytes', 'obj', 'func', 'class', 'inst',
                    'num', 'bool', 'nan', 'poly')
        if a.op in definite and b.op in definite:
            return FALSE
        if a.op == 'none' and b.op in ('cat', 'tuple', 'list', 'dict',
                                       'pjoin', 'tostr'):
            return FALSE
        if b.op == 'none':
            if a.op in ('cat', 'tuple', 'list', 'dict', 'pjoin', 'tostr'):
                return FALSE
        x, y = sorted((a, b), key=lambda t: t.uid)
        return mk('is', x, y)
    if kind(a) == 'bool' or kind(b) == 'bool':
        if a.op == 'bool':
            return b if a.args[0] else tnot(b)
        if b.op == 'bool':
            return a if b.args[0] else tnot(a)
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    return eq0(sub(a, b))


def tnot(c):
    if c.op == 'bool':
        return FALSE if c.args[0] else TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'and':
        return tor(*[tnot(x) for x in c.args])
    if c.op == 'or':
        return tand(*[tnot(x) for x in c.args])
    if c.op == 'le' and is_int_scaled(c.args[0]):
        # not (d <= 0)  <=>  d >= 1
        return le0(add(neg(c.args[0]), num(1)))
    if c.op == 'ite':
        return ite(c.args[0], tnot(c.args[1]), tnot(c.args[2]))
    return mk('not', c)


def _flat(op, args):
    out = []
    for a in args:
        if a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


def tand(*args):
    xs = []
    for a in _flat('and', args):
        a = truth(a)
        if a is FALSE:
            return FALSE
        if a is not TRUE and a not in xs:
            xs.append(a)
    s = set(xs)
    for x in xs:
        if tnot(x) in s:
            return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return mk('and', *sorted(xs, key=lambda t: t.uid))


def tor(*args):
    xs = []
    for a in _flat('or', args):
        a = truth(a)
        if a is TRUE:
            return TRUE
        if a is not FALSE and a not in xs:
            xs.append(a)
    s = set(xs)
    for x in xs:
        if tnot(x) in s:
            return TRUE
    if not xs:
        return FALSE
    # absorption: a or (a and b) = a ; a or (not a and b) = a or b
    ys = []
    for x in xs:
        if x.op == 'and':
            if any(y in s for y in x.args):
                continue
            parts = [y for y in x.args if tnot(y) not in s]
            if len(parts) != len(x.args):
                return tor(*([z for z in xs if z is not x] + [tand(*parts)]))
        ys.append(x)
    if len(ys) == 1:
        return ys[0]
    # (a and b) or (not a and b) = b
    if len(ys) <= 12:
        for i, x in enumerate(ys):
            if x.op != 'and':
                continue
            sx = set(x.args)
            for y in ys[i + 1:]:
                if y.op != 'and':
                    continue
                sy = set(y.args)
                dx, dy = sx - sy, sy - sx
                if len(dx) == 1 and len(dy) == 1 and \
                        tnot(next(iter(dx))) is next(iter(dy)):
                    rest = [z for z in ys if z is not x and z is not y]
                    return tor(tand(*(sx & sy)), *rest)
    return mk('or', *sorted(ys, key=lambda t: t.uid))


def truth(t):
    """Truth value of a term used as a condition."""
    k = kind(t)
    if k == 'bool':
        return t
    if t.op == 'num':
        return TRUE if t.args[0] else FALSE
    if t.op == 'none':
        return FALSE
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t.op in ('obj', 'func', 'class', 'inst', 'ext', 'module'):
        return TRUE
    if t.op in ('tuple', 'list', 'dict'):
        return TRUE if t.args else FALSE
    if t.op == 'nan':
        return TRUE
    if k in ('int', 'num'):
        return tnot(eq(t, num(0)))
    if t.op == 'cat':
        if any(p.op == 'str' and p.args[0] for p in t.args):
            return TRUE
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == 'B' and t.args[0] == 'arr':
        (sh, body) = t.args[3][-2:] if len(t.args[3]) > 1 else \
            (t.args[2], t.args[3][-1])
        if isinstance(sh, tuple) and all(x is num(1) for x in sh):
            return truth(instantiate(t, [num(0)] * len(t.args[1]))[-1])
    return mk('truth', t)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return tnot(c)
    if kind(a) == 'bool' and kind(b) == 'bool':
        if a is TRUE:
            return tor(c, b)
        if a is FALSE:
            return tand(tnot(c), b)
        if b is FALSE:
            return tand(c, a)
        if b is TRUE:
            return tor(tnot(c), a)
    # ite(c, a, ite(d, a, b)) = ite(c or d, a, b)
    if b.op == 'ite' and b.args[1] is a:
        return ite(tor(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(tand(c, a.args[0]), a.args[1], b)
    return mk('ite', c, a, b)


def isnan(t):
    if t.op == 'nan':
        return TRUE
    if t.op in ('num', 'str', 'none', 'bool', 'inf'):
        return FALSE
    if is_int(t):
        return FALSE
    if t.op == 'ite':
        c, a, b = t.args
        return ite(c, isnan(a), isnan(b))
    if t.op == 'poly':
        atoms = set()
        for m, _ in t.args:
            for x, e in m:
                atoms.add(x)
        return tor(*[isnan(x) for x in sorted(atoms, key=lambda q: q.uid)])
    if t.op == 'sym' and flag(t, 'nonan'):
        return FALSE
    if t.op == 'at' and t.args[0].op == 'sym' and flag(t.args[0], 'nonan'):
        return FALSE
    if t.op in ('abs', 'min'):
        return tor(*[isnan(x) for x in t.args])
    if t.op in ('at', 'havoc', 'cast', 'ndop', 'call', 'mcall', 'fix') or (
            t.op == 'sym' and flag(t, 'nan')):
        return mk('isnan', t)
    if t.op in ('B', 'elem'):
        return mk('isnan', t)
    return FALSE


# --------------------------------------------------------------- strings

def tostr(t):
    if kind(t) == 'str':
        return t
    if t.op == 'num':
        v = t.args[0]
        return string(str(int(v)) if v.denominator == 1 else repr(float(v)))
    if t.op == 'none':
        return string('None')
    if t.op == 'bool':
        return string(str(t.args[0]))
    return mk('tostr', t)


def cat(*parts):
    out = []
    for p in _flat('cat', parts):
        if p.op == 'str':
            if not p.args[0]:
                continue
            if out and out[-1].op == 'str':
                out[-1] = string(out[-1].args[0] + p.args[0])
                continue
        out.append(p)
    if not out:
        return string('')
    if len(out) == 1:
        return out[0] if kind(out[0]) == 'str' else tostr(out[0])
    return mk('cat', *out)


def noslash(t):
    """The string contains no path separator."""
    if t.op == 'str':
        return '/' not in t.args[0]
    if t.op == 'cat':
        return all(noslash(p) for p in t.args)
    if t.op == 'sym':
        return bool(flag(t, 'noslash'))
    if t.op == 'tostr':
        return kind(t.args[0]) in ('int', 'num', 'any')
    if t.op == 'strslice':
        return noslash(t.args[0])
    if t.op in ('basename',):
        return True
    if t.op in ('stem', 'lower', 'upper'):
        return noslash(t.args[0])
    if t.op == 'ite':
        return noslash(t.args[1]) and noslash(t.args[2])
    if t.op == 'B':
        return False
    return False


def pjoin(*parts):
    flat = []
    for p in parts:
        if p.op == 'pjoin':
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if p.op == 'str' and '/' in p.args[0].strip('/'):
            segs = p.args[0].rstrip('/').split('/')
            if not p.args[0].startswith('/'):
                out.extend(string(s) for s in segs if s)
                continue
        if p.op == 'str' and not out and p.args[0] in ('.', './'):
            pass
        out.append(p)
    out = [p for i, p in enumerate(out)
           if not (p.op == 'str' and p.args[0] == '' and i < len(out) - 1)]
    if len(out) == 1:
        return out[0]
    return mk('pjoin', *out)


def cat_path(t):
    """Normalise string concatenation with '/' into a path join."""
    if t.op != 'cat':
        return t
    segs = [[]]
    for p in t.args:
        if p.op == 'str' and '/' in p.args[0]:
            bits = p.args[0].split('/')
            segs[-1].append(string(bits[0]))
            for b in bits[1:]:
                segs.append([string(b)])
        else:
            segs[-1].append(p)
    if len(segs) == 1:
        return t
    first = cat(*segs[0])
    if first.op == 'str' and first.args[0] == '':
        return t
    return pjoin(first, *[cat(*s) for s in segs[1:]])


def basename(t):
    t = cat_path(t)
    if t.op == 'pjoin':
        last = t.args[-1]
        if noslash(last):
            return last
        return mk('basename', last)
    if t.op == 'ite':
        return ite(t.args[0], basename(t.args[1]), basename(t.args[2]))
    if noslash(t):
        return t
    if t.op == 'str':
        return string(t.args[0].rsplit('/', 1)[-1])
    return mk('basename', t)


def dirname(t):
    t = cat_path(t)
    if t.op == 'pjoin' and noslash(t.args[-1]):
        return pjoin(*t.args[:-1])
    if t.op == 'str':
        s = t.args[0]
        return string(s.rsplit('/', 1)[0] if '/' in s else '')
    if noslash(t):
        return string('')
    if t.op == 'ite':
        return ite(t.args[0], dirname(t.args[1]), dirname(t.args[2]))
    return mk('dirname', t)


def splitext(t):
    """-> (stem, ext)"""
    t = cat_path(t)
    if t.op == 'str':
        import os
        a, b = os.path.splitext(t.args[0])
        return string(a), string(b)
    if t.op == 'pjoin':
        s, e = splitext(t.args[-1])
        if s.op != 'stem':
            return pjoin(*(t.args[:-1] + (s,))), e
    if t.op == 'cat':
        last = t.args[-1]
        if last.op == 'str' and '.' in last.args[0]:
            i = last.args[0].rindex('.')
            rest, ext = last.args[0][:i], last.args[0][i:]
            if '/' not in ext:
                return cat(*(t.args[:-1] + (string(rest),))), string(ext)
    return mk('stem', t), mk('suffix', t)


def strslice(t, lo, hi):
    """t[lo:hi] with constant python ints or None."""
    if t.op == 'str':
        return string(t.args[0][lo:hi])
    if t.op == 'pjoin':
        # slicing a suffix off / out of the last component
        last = strslice(t.args[-1], lo, hi)
        if last.op != 'strslice' and last.op != 'B':
            if lo in (None, 0) and hi is not None and hi < 0:
                return pjoin(*(t.args[:-1] + (last,)))
            if lo is not None and lo < 0:
                return last
    if t.op == 'cat' and lo in (None, 0) and hi is not None and hi < 0:
        last = t.args[-1]
        if last.op == 'str' and len(last.args[0]) >= -hi:
            return cat(*(t.args[:-1] + (string(last.args[0][:hi]),)))
    if t.op == 'cat' and lo is not None and lo < 0 and hi is None:
        last = t.args[-1]
        if last.op == 'str' and len(last.args[0]) >= -lo:
            return string(last.args[0][lo:])
    if t.op == 'cat' and lo in (None, 0) and hi is not None and hi >= 0:
        first = t.args[0]
        if first.op == 'str' and len(first.args[0]) >= hi:
            return string(first.args[0][:hi])
    if lo in (None, 0) and hi is None:
        return t
    return mk('strslice', t, lo, hi)


# --------------------------------------------------------------- binders

def level(t):
    """Highest bound-variable level occurring in t (0 when none)."""
    l = t._lvl
    if l is None:
        if t.op == 'bv':
            l = t.args[0]
        else:
            l = 0
            for x in subterms(t):
                l = max(l, level(x))
        t._lvl = l
    return l


def subterms(t):
    """Direct sub-terms, looking into nested tuples."""
    stack = list(t.args)
    while stack:
        a = stack.pop()
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            stack.extend(a)


def size(t):
    s = t._size
    if s is None:
        s = t._size = 1 + sum(size(x) for x in subterms(t))
    return s


def binder(bkind, variables, outer, inner):
    """Close `inner` terms over the open symbols `variables`."""
    variables = tuple(variables)
    lv = 0
    for x in _terms_in(inner):
        lv = max(lv, level(x))
    names = tuple(mk('bv', lv + i + 1) for i in range(len(variables)))
    mp = dict(zip(variables, names))
    inner = tuple(_subst_any(x, mp, {}) for x in inner)
    if bkind == 'arr':
        r = eta(names, inner)
        if r is not None:
            return r
    return mk('B', bkind, names, tuple(outer), inner)


SHAPES = {}     # array value -> its shape, where a model knows it


def natural_shape(x, nd=2):
    """Shape of an array value the term itself stands for."""
    s = SHAPES.get(x)
    if s is not None:
        return s
    if x.op == 'mcall' and x.args[1] == 'ReadAsArray':
        recv, args = x.args[0], x.args[2:]
        if len(args) >= 4:
            return (args[3], args[2])
        ds = recv
        if recv.op == 'mcall' and recv.args[1] == 'GetRasterBand':
            ds = recv.args[0]
        return (mk('attr', ds, 'RasterYSize'), mk('attr', ds, 'RasterXSize'))
    if x.op == 'B' and x.args[0] == 'arr' and x.args[3][0]:
        return x.args[3][0]
    if x.op == 'attr' and x.args[1] == 'T':
        return tuple(reversed(natural_shape(x.args[0], nd)))
    return tuple(mk('shape', x, num(k)) for k in range(nd))


def eta(names, inner):
    """arr[i,j](shape of X; X[i,j]) is X."""
    if len(inner) != 2:
        return None
    dims, body = inner
    if not isinstance(body, Term) or body.op != 'at' or \
            body.args[1:] != tuple(names):
        return None
    x = body.args[0]
    if any(occurs(v, x) for v in names):
        return None
    if tuple(dims) and tuple(dims) != natural_shape(x, len(names)):
        return None
    return x


def _terms_in(x):
    if isinstance(x, Term):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            for z in _terms_in(y):
                yield z


def instantiate(b, values):
    """Inner terms of binder b with its bound variables replaced."""
    mp = dict(zip(b.args[1], values))
    return tuple(_subst_any(x, mp, {}) for x in b.args[3])


def open_binder(b, prefix='o', kinds=None):
    vs = tuple(fresh(prefix) for _ in b.args[1])
    return vs, instantiate(b, vs)


def total(var, n, body):
    """Sum of body over 0 <= var < n."""
    if body.op == 'num' and body.args[0] == 0:
        return body
    if not occurs(var, body):
        return mul(tmax(n, num(0)) if n.op != 'num' else tmax(n, num(0)),
                   body)
    # pull constant factors out
    p = to_poly(body)
    if len(p) == 1:
        (m, c), = p.items()
        ins = tuple((a, e) for a, e in m if occurs(var, a))
        outs = tuple((a, e) for a, e in m if not occurs(var, a))
        inner = from_poly({ins: Fraction(1)})
        return mul(from_poly({outs: c}), binder('sum', (var,), (),
                                                (n, inner)))
    # linear: sum of sums
    out = num(0)
    for m, c in p.items():
        out = add(out, total(var, n, from_poly({m: c})))
    return out


NOFREE = frozenset()


def free(t):
    """Open symbols and bound variables that occur free in t."""
    f = t._free
    if f is None:
        if t.op in ('sym', 'bv'):
            f = frozenset((t,))
        elif t.op == 'B':
            f = _union(_terms_in(t.args[3]))
            f = f.difference(t.args[1])
            g = _union(_terms_in(t.args[2]))
            f = f | g if g else f
        else:
            f = _union(subterms(t))
        t._free = f
    return f


def _union(ts):
    out = NOFREE
    for x in ts:
        f = free(x)
        if f and f is not out:
            out = f if not out else out | f
    return out


def occurs(var, t, _memo=None):
    if var.op in ('sym', 'bv'):
        return var in free(t)
    if _memo is None:
        _memo = {}
    if t is var:
        return True
    r = _memo.get(t)
    if r is None:
        r = False
        for x in subterms(t):
            if occurs(var, x, _memo):
                r = True
                break
        _memo[t] = r
    return r


def atoms(t, pred, acc=None, seen=None):
    """All sub-terms satisfying pred, outermost first."""
    if acc is None:
        acc, seen = [], set()
    if t in seen:
        return acc
    seen.add(t)
    if pred(t):
        acc.append(t)
    for x in subterms(t):
        atoms(x, pred, acc, seen)
    return acc


# --------------------------------------------------------------- rebuild

def rebuild(t, args):
    """Reapply the smart constructor of t's operator to new arguments."""
    op = t.op
    if op == 'poly':
        out = num(0)
        for m, c in args:
            x = mk('num', c)
            for a, e in m:
                x = mul(x, power(a, e))
            out = add(out, x)
        return out
    f = BUILD.get(op)
    if f is not None:
        return f(*args)
    h = HOOKS.get(op)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    return mk(op, *args)


HOOKS = {}      # op -> extra simplifier(*args) -> Term or None


def _rb_B(bkind, names, outer, inner):
    if bkind == 'arr':
        r = eta(names, inner)
        if r is not None:
            return r
    return mk('B', bkind, names, outer, inner)


BUILD = {
    'inv': lambda a: inv(a), 'sqrt': sqrt, 'floor': floor, 'trunc': trunc,
    'rint': rint, 'min': tmin, 'abs': tabs, 'lt': lt0, 'le': le0, 'eq': eq0,
    'is': eq, 'not': tnot, 'and': tand, 'or': tor, 'ite': ite,
    'isnan': isnan, 'cat': cat, 'tostr': tostr, 'pjoin': pjoin,
    'basename': basename, 'dirname': dirname, 'truth': truth,
    'fn': lambda name, *a: (power(a[0], a[1]) if name == 'pow'
                            else fn(name, *a)),
    'bigmul': mul, 'strslice': strslice,
    'stem': lambda a: splitext(a)[0], 'suffix': lambda a: splitext(a)[1],
}


def _subst_any(x, mp, memo):
    if isinstance(x, Term):
        return _subst(x, mp, memo)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, mp, memo) for y in x)
    return x


def _subst(t, mp, memo):
    r = mp.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ('sym', 'num', 'str', 'bv', 'bool'):
        return t
    if memo.get('$vars', True) is True:
        ks = frozenset(mp)
        memo['$vars'] = ks if all(k.op in ('sym', 'bv') for k in ks) \
            else None
    ks = memo['$vars']
    if ks is not None and ks.isdisjoint(free(t)):
        return t
    if t.op == 'B':
        r = _subst_binder(t, mp, memo)
    else:
        new = _subst_any(t.args, mp, memo)
        r = t if new == t.args else rebuild(t, new)
    memo[t] = r
    return r


def _subst_binder(t, mp, memo):
    bkind, names, outer, inner = t.args
    shadow = {k: v for k, v in mp.items() if k not in names}
    outer2 = _subst_any(outer, mp, memo)
    if not shadow:
        if outer2 == outer:
            return t
        return close(bkind, *_reopen(names, inner), outer=outer2)
    # open, substitute, close again (keeps bound names canonical)
    vs = tuple(fresh('r') for _ in names)
    shadow.update(zip(names, vs))
    inner2 = tuple(_subst_any(x, shadow, {}) for x in inner)
    return close(bkind, vs, inner2, outer=outer2)


def _reopen(names, inner):
    vs = tuple(fresh('r') for _ in names)
    mp = dict(zip(names, vs))
    return vs, tuple(_subst_any(x, mp, {}) for x in inner)


def close(bkind, vs, inner, outer=()):
    """Close a binder through its smart constructor."""
    f = BIND.get(bkind)
    if f is not None:
        r = f(vs, outer, inner)
        if r is not None:
            return r
    return binder(bkind, vs, outer, inner)


def _bind_sum(vs, outer, inner):
    return total(vs[0], inner[0], inner[1])


BIND = {'sum': _bind_sum}


def subst(t, mp):
    if not mp:
        return t
    return _subst(t, mp, {})


# --------------------------------------------------------------- printing

def show(t, depth=7):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth - 1) for x in t) + ')'
        return str(t)
    op = t.op
    if depth <= 0 and op not in ('num', 'str', 'sym', 'bv', 'bool', 'none'):
        return '…'
    d = depth - 1
    if op == 'num':
        v = t.args[0]
        if v.denominator == 1:
            return str(v.numerator)
        f = float(v)
        return repr(f) if Fraction(repr(f)) == v else str(v)
    if op == 'str':
        return repr(t.args[0])
    if op == 'sym':
        return t.args[0]
    if op == 'bv':
        return 'i%d' % t.args[0]
    if op == 'bool':
        return str(t.args[0])
    if op == 'none':
        return 'None'
    if op == 'poly':
        out = []
        for m, c in t.args:
            fs = []
            if c != 1 or not m:
                fs.append(show(mk('num', c)) if c != -1 or not m else '-1')
            for a, e in m:
                s = show(a, d)
                if a.op in ('ite', 'poly'):
                    s = '(%s)' % s
                fs.append(s if e == 1 else '%s^%d' % (s, e))
            out.append('*'.join(fs))
        return ' + '.join(out)
    if op == 'lt':
        return '(%s < 0)' % show(t.args[0], d)
    if op == 'le':
        return '(%s <= 0)' % show(t.args[0], d)
    if op == 'eq':
        return '(%s == 0)' % show(t.args[0], d)
    if op == 'is':
        return '(%s == %s)' % (show(t.args[0], d), show(t.args[1], d))
    if op == 'not':
        return 'not %s' % show(t.args[0], d)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in t.args) + ')'
    if op == 'ite':
        return '(%s if %s else %s)' % (show(t.args[1], d),
                                       show(t.args[0], d),
                                       show(t.args[2], d))
    if op == 'cat':
        return ' ++ '.join(show(x, d) for x in t.args)
    if op == 'attr':
        return '%s.%s' % (show(t.args[0], d), t.args[1])
    if op == 'B':
        return '%s[%s]{%s}(%s)' % (
            t.args[0], ','.join(show(v) for v in t.args[1]),
            ', '.join(show(x, d) for x in t.args[2]),
            ', '.join(show(x, d) for x in t.args[3]))
    if op == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(show(x, d)
                                                for x in t.args[1:]))
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in t.args))
