"""Confirmation of alarms.

Two terms that the normaliser cannot identify are only reported as different
when an interpretation of their symbols is found under which they differ: the
analysed program is not run, the *terms* are evaluated.  Symbols, array
elements, table cells and uninterpreted operations get values drawn from the
constants the terms compare against, so that both sides of every threshold
are reached.  Without such an interpretation the question stays undecided.
"""

from fractions import Fraction
import hashlib
import math
import struct
import random
import time

from . import terms as T
from .terms import Term, kind, num

NAN = float('nan')
INF = float('inf')


class Abort(Exception):
    """This interpretation cannot be evaluated."""


class Undefined(Abort):
    """There is no value: division by zero, logarithm of zero, ..."""


class Tok(object):
    """Value of an uninterpreted operation."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Tok) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '<%s>' % (self.key[:60],)


def _h(seed, *xs):
    return int(hashlib.md5(repr((seed,) + xs).encode()).hexdigest()[:12], 16)


def canon(v):
    """Stable text of a value (equal values, equal text)."""
    if isinstance(v, bool):
        return 'n1' if v else 'n0'
    if isinstance(v, (int, Fraction)):
        f = Fraction(v)
        return 'n%s' % (f.numerator if f.denominator == 1 else
                        '%.10g' % float(f))
    if isinstance(v, float):
        if v == int(v) if abs(v) < 1e15 and v == v else False:
            return 'n%d' % int(v)
        return 'n%.10g' % v
    if isinstance(v, tuple):
        return '(' + ','.join(canon(x) for x in v) + ')'
    if isinstance(v, Tok):
        return v.key
    return repr(v)


PI = Fraction(math.pi)
MAXITER = 4000
UNKNOWN = {'nonzero', 'nzidx', 'nzcount', 'havoc', 'unbound', 'undef',
           'bigmul'}


class World(object):

    def __init__(self, seed, pool, ints, domains=None, nan=0.12, small=6):
        self.seed = seed
        self.rng = random.Random(seed)
        self.pool, self.ints = pool, ints
        self.nan = nan if seed % 2 else 0.0
        self.domains = domains or {}
        self.small = small
        # in some worlds most numbers are the same special value
        self.hot = pool[(seed // 5) % len(pool)] if pool and seed % 5 == 3 \
            else None
        self.vals = {}
        self.memo = {}
        self.steps = 0
        self.objects = {}
        self.over = {}              # values chosen to satisfy constraints
        self.keyof = {}

    # -- sampling

    def draw_num(self, key):
        if key in self.over:
            return self.over[key]
        h = _h(self.seed, key)
        r = random.Random(h)
        m = r.random()
        if self.hot is not None and m < 0.9:
            return self.hot
        if m < 0.45:
            return r.choice(self.pool)
        if m < 0.6:
            return r.choice(self.pool) + Fraction(r.randint(-9, 9), 1000)
        if m < 0.75:
            return Fraction(r.randint(-3, 12))
        return Fraction(r.randint(-200, 3000), r.choice((7, 100, 10, 3)))

    def draw_int(self, key):
        if key in self.over:
            return self.over[key]
        r = random.Random(_h(self.seed, key))
        m = r.random()
        if m < 0.75:
            return Fraction(r.randint(0, self.small))
        if m < 0.9 and self.ints:
            return Fraction(r.choice(self.ints))
        return Fraction(r.randint(-3, 12))

    def draw(self, t, key):
        k = kind(t)
        if k == 'int':
            return self.draw_int(key)
        if k == 'num':
            return self.draw_num(key)
        if k == 'bool':
            return _h(self.seed, key) % 2 == 0
        if k == 'str':
            return 's%x' % (_h(0, key) % 0xfffff)
        return Tok(key)

    def sym(self, t):
        v = self.vals.get(t)
        if v is None:
            d = self.domains.get(t)
            if d is not None:
                v = d(self) if callable(d) else self.rng.choice(list(d))
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    v = Fraction(repr(v)) if isinstance(v, float) and \
                        v == v and abs(v) != INF else Fraction(v) if \
                        isinstance(v, int) else v
            else:
                v = self.draw(t, 'sym:' + t.args[0])
                if kind(t) == 'str':
                    v = 's_' + ''.join(c for c in t.args[0]
                                       if c.isalnum() or c == '_')
                    if not T.flag(t, 'noslash') and T.flag(t, 'path'):
                        v = '/d/' + v
            self.vals[t] = v
        return v

    def number(self, v, key=None):
        """Numeric reading of a value."""
        if isinstance(v, bool):
            return Fraction(1 if v else 0)
        if isinstance(v, (Fraction, float)):
            return v
        if isinstance(v, int):
            return Fraction(v)
        if isinstance(v, Tok):
            if v.key in self.over:
                return self.over[v.key]
            if self.nan and _h(self.seed, 'nan', v.key) % 1000 < \
                    1000 * self.nan:
                return NAN
            return self.draw_num(v.key)
        if v is None:
            raise Abort()
        raise Abort()

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Tok):
            if ('truth', v.key) in self.over:
                return self.over['truth', v.key]
            return _h(self.seed, 'truth', v.key) % 2 == 0
        if isinstance(v, float) and v != v:
            return True
        return bool(v)

    # -- evaluation

    def ev(self, t, env):
        if t.op == 'num':
            return t.args[0]
        fr = T.free(t)
        key = (t, tuple((k, env[k]) for k in sorted(
            (x for x in fr if x in env), key=lambda q: q.uid))) if env and fr \
            else (t, ())
        try:
            r = self.memo.get(key, self)
        except TypeError:
            key = None
            r = self
        if r is not self:
            return r
        self.steps += 1
        if self.steps > 60000:
            raise Abort()
        r = self._ev(t, env)
        if key is not None:
            self.memo[key] = r
        return r

    def n(self, t, env):
        return self.number(self.ev(t, env))

    def cond(self, t, env):
        return self.truth(self.ev(t, env))

    def count(self, t, env):
        v = self.n(t, env)
        if v == INF:
            return MAXITER
        if v != v:
            raise Abort()
        if v > MAXITER:
            raise Abort()
        return max(0, int(v))

    def sign0(self, v):
        if isinstance(v, float) and v == v and abs(v) < 1e-9 and v != 0.0:
            raise Abort()           # rounding could decide this comparison
        return v

    def _ev(self, t, env):
        op = t.op
        m = getattr(self, 'e_' + op, None)
        if m is not None:
            return m(t, env)
        if op in UNKNOWN:
            raise Abort()
        return self.opaque(t, env)

    def opaque(self, t, env):
        args = [self.any(a, env) for a in t.args]
        key = '%s:%s' % (t.op, canon(tuple(args)))
        if len(key) > 200:
            key = t.op + ':' + hashlib.md5(key.encode()).hexdigest()
        if not env:
            self.keyof[t] = key
        return self.draw(t, key)

    def e_call(self, t, env):
        if t.args[0] in ('numpy.unique', 'numpy.sort') and len(t.args) == 2:
            v = self.ev(t.args[1], env)
            if isinstance(v, tuple):
                if v and v[0] == 'arr':
                    v = v[2]
                v = [self.number(x) for x in v]
                if t.args[0] == 'numpy.unique':
                    v = set(v)
                v = tuple(sorted(v))
                return ('arr', (len(v),), v)
        return self.opaque(t, env)

    def any(self, a, env):
        if isinstance(a, Term):
            return self.ev(a, env)
        if isinstance(a, tuple):
            return tuple(self.any(x, env) for x in a)
        return a

    def e_sym(self, t, env):
        if t in env:
            return env[t]
        return self.sym(t)

    def e_bv(self, t, env):
        if t not in env:
            raise Abort()
        return env[t]

    def e_str(self, t, env):
        return t.args[0]

    e_bool = e_str

    def e_none(self, t, env):
        return None

    def e_nan(self, t, env):
        return NAN

    def e_inf(self, t, env):
        return INF

    def e_poly(self, t, env):
        out = Fraction(0)
        for mono, c in t.args:
            x = c
            for a, e in mono:
                v = self.n(a, env)
                if e < 0 and v == 0:
                    raise Undefined()
                try:
                    x = x * v ** e
                except (OverflowError, ZeroDivisionError):
                    raise Abort()
            try:
                out = out + x
            except OverflowError:
                raise Abort()
        return out

    def e_bigmul(self, t, env):
        return self.n(t.args[0], env) * self.n(t.args[1], env)

    def e_inv(self, t, env):
        v = self.n(t.args[0], env)
        if v == 0:
            raise Undefined()
        return 1 / v

    def e_sqrt(self, t, env):
        v = self.n(t.args[0], env)
        if v != v:
            return NAN
        if v < 0:
            return NAN
        f = T.sqrt(T.num(v)) if isinstance(v, Fraction) else None
        if f is not None and f.op == 'num':
            return f.args[0]
        return math.sqrt(v)

    def _finite(self, v):
        if v != v or v in (INF, -INF):
            raise Abort()
        if isinstance(v, float) and abs(v - round(v)) < 1e-9 and \
                v != round(v):
            raise Abort()
        return v

    def e_floor(self, t, env):
        return Fraction(math.floor(self._finite(self.n(t.args[0], env))))

    def e_trunc(self, t, env):
        return Fraction(int(self._finite(self.n(t.args[0], env))))

    def e_rint(self, t, env):
        v = self._finite(self.n(t.args[0], env))
        return Fraction(round(v))

    def e_min(self, t, env):
        vs = [self.n(a, env) for a in t.args]
        if any(v != v for v in vs):
            return NAN
        return min(vs)

    def e_abs(self, t, env):
        return abs(self.n(t.args[0], env))

    def e_fn(self, t, env):
        name = t.args[0]
        if name == 'pi':
            return PI
        if name == 'e':
            return math.e
        if name == 'real':      # a number, never NaN
            return self.draw_num(canon(self.any(t.args[1], env)))
        xs = [self.n(a, env) for a in t.args[1:]]
        if any(x != x for x in xs):
            return NAN
        try:
            if name == 'pow':
                return xs[0] ** xs[1] if xs[1].denominator == 1 else \
                    float(xs[0]) ** float(xs[1])
            if name == 'arctan2':
                return math.atan2(*[float(x) for x in xs])
            f = {'log': math.log, 'exp': math.exp, 'sin': math.sin,
                 'cos': math.cos, 'tan': math.tan, 'arctan': math.atan,
                 'arcsin': math.asin, 'arccos': math.acos,
                 'log10': math.log10, 'log2': math.log2,
                 'sinh': math.sinh, 'cosh': math.cosh,
                 'tanh': math.tanh}.get(name)
            if f is not None:
                try:
                    return f(*[float(x) for x in xs])
                except ValueError:
                    raise Undefined()
        except (ValueError, OverflowError, ZeroDivisionError, TypeError,
                AttributeError):
            raise Abort()
        return self.opaque(t, env)

    def e_lt(self, t, env):
        v = self.sign0(self.n(t.args[0], env))
        return v < 0

    def e_le(self, t, env):
        v = self.sign0(self.n(t.args[0], env))
        return v <= 0

    def e_eq(self, t, env):
        v = self.sign0(self.n(t.args[0], env))
        return v == 0

    def e_is(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(a, Tok) != isinstance(b, Tok):
            # an unknown value may well be that constant
            x = a if isinstance(a, Tok) else b
            y = b if isinstance(a, Tok) else a
            return _h(self.seed, 'is', x.key, canon(y)) % 3 == 0
        return same(a, b)

    def e_not(self, t, env):
        return not self.cond(t.args[0], env)

    def e_and(self, t, env):
        return all([self.cond(a, env) for a in t.args])

    def e_or(self, t, env):
        return any([self.cond(a, env) for a in t.args])

    def e_truth(self, t, env):
        return self.cond(t.args[0], env)

    def e_exists(self, t, env):
        return self.cond(t.args[0], env)

    def e_ite(self, t, env):
        return self.ev(t.args[1 if self.cond(t.args[0], env) else 2], env)

    def e_isnan(self, t, env):
        v = self.n(t.args[0], env)
        return v != v

    def e_raises(self, t, env):
        args = [self.any(a, env) for a in t.args]
        return _h(self.seed, 'raises', canon(tuple(args))) % 6 == 0

    def e_tuple(self, t, env):
        return tuple(self.ev(a, env) for a in t.args)

    e_list = e_tuple

    def e_concat(self, t, env):
        out = ()
        for a in t.args:
            v = self.ev(a, env)
            if not isinstance(v, tuple):
                raise Abort()
            out += v
        return out

    def e_distinct(self, t, env):
        v = self.ev(t.args[0], env)
        if not isinstance(v, tuple):
            return Tok('distinct:' + canon(v))
        seen = {}
        for x in v:
            seen.setdefault(canon(x), x)
        return tuple(seen[k] for k in sorted(seen))

    def e_cast(self, t, env):
        v = self.ev(t.args[1], env)
        if isinstance(v, (int, float, Fraction)) and v == v and \
                not isinstance(v, bool) and v not in (INF, -INF):
            if t.args[0] == 'raster':       # class codes are integers
                return Fraction(int(v))
            if t.args[0] == 'half' and abs(v) < 65000:
                return Fraction(struct.unpack('e', struct.pack(
                    'e', float(v)))[0])
        return Tok('cast:' + canon(v))

    def e_masked(self, t, env):
        return ('masked', self.ev(t.args[0], env), self.ev(t.args[1], env))

    def e_item(self, t, env):
        x, i = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(x, tuple) and isinstance(i, Fraction):
            try:
                return x[int(i)]
            except IndexError:
                raise Abort()
        return self.opaque(t, env)

    def e_at(self, t, env):
        x = self.ev(t.args[0], env)
        idx = [self.ev(a, env) for a in t.args[1:]]
        if isinstance(x, tuple) and x and x[0] == 'arr':
            shape, flat = x[1], x[2]
            k = 0
            for i, d in zip(idx, shape):
                i = int(self.number(i))
                if i < 0:
                    i += d
                if not 0 <= i < d:
                    raise Abort()
                k = k * d + i
            return flat[k]
        if isinstance(x, tuple) and len(idx) == 1 and \
                isinstance(idx[0], Fraction) and (not x or x[0] != 'arr'):
            try:
                return x[int(idx[0])]
            except IndexError:
                raise Abort()
        key = 'at:%s[%s]' % (canon(x), ','.join(canon(i) for i in idx))
        self.keyof[t] = key
        nonan = t.args[0].op == 'sym' and T.flag(t.args[0], 'nonan')
        if self.nan and not nonan and \
                _h(self.seed, 'nan', key) % 1000 < 1000 * self.nan:
            return NAN
        k = kind(t)
        if k == 'int':
            return self.draw_int(key)
        return self.draw_num(key)

    def e_cell(self, t, env):
        key = 'cell:' + canon(tuple(self.any(a, env) for a in t.args))
        self.keyof[t] = key
        return self.draw_num(key)

    def e_cat(self, t, env):
        return ''.join(self.text(self.ev(a, env)) for a in t.args)

    def text(self, v):
        if isinstance(v, str):
            return v
        return '<%s>' % canon(v)

    def e_tostr(self, t, env):
        return self.text(self.ev(t.args[0], env))

    def e_pjoin(self, t, env):
        import posixpath
        return posixpath.join(*[self.text(self.ev(a, env)) for a in t.args])

    def e_basename(self, t, env):
        return self.text(self.ev(t.args[0], env)).rsplit('/', 1)[-1]

    def e_dirname(self, t, env):
        import posixpath
        return posixpath.dirname(self.text(self.ev(t.args[0], env)))

    def e_stem(self, t, env):
        import posixpath
        return posixpath.splitext(self.text(self.ev(t.args[0], env)))[0]

    def e_ext(self, t, env):
        import posixpath
        if not isinstance(t.args[0], Term):
            return Tok('ext:' + str(t.args[0]))
        return posixpath.splitext(self.text(self.ev(t.args[0], env)))[1]

    def e_strslice(self, t, env):
        return self.text(self.ev(t.args[0], env))[t.args[1]:t.args[2]]

    def e_len(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, tuple):
            if v and v[0] == 'arr':
                return Fraction(v[1][0])
            return Fraction(len(v))
        if isinstance(v, str):
            return Fraction(len(v))
        return Fraction(_h(self.seed, 'len', canon(v)) % (self.small + 1))

    def e_shape(self, t, env):
        d = self.domains.get(t)
        if d is not None:
            return self.sym(t)
        v = self.ev(t.args[0], env)
        k = int(self.ev(t.args[1], env)) if isinstance(t.args[1], Term) \
            else t.args[1]
        if isinstance(v, tuple) and v and v[0] == 'arr':
            return Fraction(v[1][k])
        return Fraction(1 + _h(self.seed, 'shape', canon(v), k) %
                        self.small)

    def e_size(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, tuple) and v and v[0] == 'arr':
            return Fraction(len(v[2]))
        if isinstance(v, tuple):
            return Fraction(len(v))
        return Fraction(_h(self.seed, 'size', canon(v)) % (self.small + 1))

    def e_attr(self, t, env):
        if t.args[1] in ('RasterXSize', 'RasterYSize'):
            d = self.domains.get(t)
            if d is not None:
                return self.sym(t)
            v = self.ev(t.args[0], env)
            return Fraction(1 + _h(self.seed, t.args[1], canon(v)) %
                            self.small)
        return self.opaque(t, env)

    def e_eff(self, t, env):
        # the serial number only distinguishes occurrences
        args = [self.any(a, env) for a in (t.args[0],) + t.args[3:]]
        loops = tuple(self.any(a, env) for a in t.args[2]) \
            if isinstance(t.args[2], tuple) else ()
        return self.draw(t, 'eff:' + canon(tuple(args)) + canon(loops))

    # -- binders

    def e_B(self, t, env):
        m = getattr(self, 'b_' + t.args[0], None)
        if m is None:
            raise Abort()
        return m(t, env)

    def loop(self, t, env, n):
        v = t.args[1][0]
        for i in range(n):
            e = dict(env)
            e[v] = Fraction(i)
            yield e

    def b_sum(self, t, env):
        n, body = t.args[3]
        out = Fraction(0)
        for e in self.loop(t, env, self.count(n, env)):
            out = out + self.n(body, e)
        return out

    def b_prod(self, t, env):
        n, body = t.args[3]
        out = Fraction(1)
        for e in self.loop(t, env, self.count(n, env)):
            out = out * self.n(body, e)
        return out

    def b_rmin(self, t, env):
        n, body = t.args[3]
        vs = [self.n(body, e)
              for e in self.loop(t, env, self.count(n, env))]
        if any(v != v for v in vs):
            return NAN
        return min(vs) if vs else INF

    def b_exists(self, t, env):
        n, c = t.args[3]
        return any(self.cond(c, e)
                   for e in self.loop(t, env, self.count(n, env)))

    def b_count(self, t, env):
        n, c = t.args[3]
        k = self.count(n, env)
        for i, e in enumerate(self.loop(t, env, k)):
            if not self.cond(c, e):
                return Fraction(i)
        if k == MAXITER:
            raise Abort()
        return Fraction(k)

    def b_first(self, t, env):
        n, c, v = t.args[3]
        for e in self.loop(t, env, self.count(n, env)):
            if self.cond(c, e):
                return self.ev(v, e)
        raise Abort()

    def b_last(self, t, env):
        n, g, v, prev = t.args[3]
        nn = self.n(n, env)
        if nn == INF:
            raise Abort()
        k = self.count(n, env)
        var = t.args[1][0]
        for i in range(k - 1, -1, -1):
            e = dict(env)
            e[var] = Fraction(i)
            if self.cond(g, e):
                return self.ev(v, e)
        return self.ev(prev, env)

    def b_fix(self, t, env):
        k, v0 = t.args[2]
        u, q = t.args[1]
        cur = self.ev(v0, env)
        for i in range(self.count(k, env)):
            e = dict(env)
            e[u], e[q] = Fraction(i), cur
            cur = self.ev(t.args[3][0], e)
        return cur

    def b_arr(self, t, env):
        shape, body = t.args[3]
        dims = [self.count(d, env) for d in shape]
        if not dims:
            dims = []
        total = 1
        for d in dims:
            total *= d
        if total > 600:
            raise Abort()
        flat = []
        vs = t.args[1]
        for k in range(total):
            e = dict(env)
            r = k
            for j in range(len(dims) - 1, -1, -1):
                e[vs[j]] = Fraction(r % dims[j])
                r //= dims[j]
            flat.append(self.ev(body, e))
        return ('arr', tuple(dims), tuple(flat))

    def b_seq(self, t, env):
        ns, g, body = t.args[3]
        vs = t.args[1]
        if not isinstance(ns, tuple):
            ns = (ns,)
        out = []

        def go(k, e):
            if k == len(vs):
                if self.cond(g, e):
                    out.append(self.ev(body, e))
                return
            for i in range(self.count(ns[k], e)):
                e2 = dict(e)
                e2[vs[k]] = Fraction(i)
                go(k + 1, e2)
        go(0, dict(env))
        return tuple(out)

    def b_flat(self, t, env):
        n, body = t.args[3][0], t.args[3][-1]
        out = ()
        for e in self.loop(t, env, self.count(n, env)):
            v = self.ev(body, e)
            if not isinstance(v, tuple):
                raise Abort()
            out += v
        return out


# ------------------------------------------------------------ comparison

def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
    if isinstance(a, (Fraction, float, int)) and \
            isinstance(b, (Fraction, float, int)):
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
            return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    return a == b


def constants(*ts):
    pool, ints = set(), set()
    for t in ts:
        for x in T.atoms(t, lambda q: q.op in ('num', 'poly')):
            if x.op == 'num':
                pool.add(x.args[0])
            else:
                k0 = 0
                cs = []
                for m, c in x.args:
                    if not m:
                        k0 = c
                    else:
                        cs.append(c)
                        pool.add(abs(c))
                for c in cs:
                    if k0:
                        pool.add(-k0 / c)
    pool = {p for p in pool if abs(p) < 10 ** 6}
    ints = [p for p in pool if p.denominator == 1 and abs(p) < 50]
    pool |= {Fraction(0), Fraction(1), Fraction(1, 2)}
    return sorted(pool), sorted(ints)


def holds(w, facts, env):
    for c, strict in facts.cons:
        # a constraint about a bound variable is not about the inputs
        t = T.from_poly(dict(c))
        v = w.n(t, env)
        if v != v or v < 0 or (strict and v == 0):
            return False
    for c, val in facts.truths.items():
        if w.cond(c, env) != val:
            return False
    return True


class Witness(object):
    def __init__(self, seed, inputs, a, b, path):
        self.seed, self.inputs, self.a, self.b = seed, inputs, a, b
        self.path = path

    def __repr__(self):
        ins = ', '.join('%s=%s' % (k, brief(v)) for k, v in self.inputs)
        return 'with %s: %s; the property requires %s%s' % (
            ins or 'any inputs', brief(self.a), brief(self.b), self.path)


def brief(v):
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, Fraction):
        return str(v) if v.denominator == 1 else '%.6g' % float(v)
    if isinstance(v, float):
        return '%.6g' % v
    s = repr(v) if not isinstance(v, tuple) else '(' + ', '.join(
        brief(x) for x in v) + ')'
    return s if len(s) < 160 else s[:157] + '...'


def where_differ(a, b, pre=''):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and b and a[0] == 'arr' and b[0] == 'arr':
            if a[1] != b[1]:
                return pre + ' array shape', a[1], b[1]
            for k, (x, y) in enumerate(zip(a[2], b[2])):
                if not same(x, y):
                    idx = []
                    for d in reversed(a[1]):
                        idx.insert(0, k % d)
                        k //= d
                    return where_differ(x, y, '%s element %s' % (pre,
                                                                 idx))
        elif len(a) == len(b):
            for k, (x, y) in enumerate(zip(a, b)):
                if not same(x, y):
                    return where_differ(x, y, '%s[%d]' % (pre, k))
    return pre, a, b


class Guide(object):
    """Changes the inputs of a world until constraints hold in it."""

    def __init__(self, w, groups):
        self.w = w
        self.rng = random.Random(w.seed * 31 + 7)
        self.hard, self.soft = groups
        self.fixed = set()

    def value(self, t):
        return self.w.n(t, {})

    def bad(self, group):
        out = []
        for t, strict in group[0]:
            v = self.value(t)
            if v != v or v < 0 or (strict and v == 0):
                out.append((t, strict))
        for c, val in group[1]:
            if self.w.cond(c, {}) != val:
                out.append((c, val))
        return out

    def run(self, steps=60):
        for k in range(steps):
            try:
                bad = self.bad(self.hard)
                ok = not bad
                if ok:
                    bad = self.bad(self.soft)
                    if not bad:
                        return True
                    if k > steps // 2:
                        return True
            except Abort:
                return False
            x, y = self.rng.choice(bad)
            try:
                self.fix(x, y)
            except (Abort, OverflowError, ZeroDivisionError):
                pass
            self.w.memo.clear()
            self.w.steps = 0
        return False

    def fix(self, x, y):
        if x.op in ('lt', 'le', 'eq'):
            d = x.args[0]
            if x.op == 'eq':
                return self.settle(d, Fraction(0) if y else
                                   self.some(self.rng.random() < .5))
            neg = y                  # d < 0 wanted, or d >= 0
            strict = (x.op == 'lt') == y
            g = self.some(strict)
            return self.settle(d, -g if neg else g)
        if x.op == 'not':
            return self.fix(x.args[0], not y)
        if x.op in ('and', 'or'):
            if y == (x.op == 'and'):
                for a in x.args:
                    if self.w.cond(a, {}) != y:
                        self.fix(a, y)
                return
            return self.fix(self.rng.choice(x.args), y)
        if x.op in ('truth', 'exists'):
            x = x.args[0]
        if kind(x) in ('bool', 'any') and isinstance(y, bool) and \
                x.op not in ('poly', 'num'):
            v = self.w.ev(x, {})
            if isinstance(v, Tok):
                self.w.over['truth', v.key] = y
            elif x.op == 'sym' and x not in self.w.domains and \
                    kind(x) == 'bool':
                self.w.vals[x] = y
            return
        self.settle(x, self.some(y))

    def some(self, strict):
        r = self.rng.random()
        if r < .35 and not strict:
            return Fraction(0)
        if r < .6:
            return Fraction(1)
        if r < .75:
            return Fraction(self.rng.randint(1, 9), 10)
        return Fraction(self.rng.randint(1, 12))

    def settle(self, t, target, depth=0):
        """Make t evaluate to target (roughly) by changing inputs."""
        w = self.w
        if depth > 8 or isinstance(target, Fraction) and (
                target.numerator.bit_length() > 90 or
                target.denominator.bit_length() > 90):
            return False
        if t.op == 'num':
            return False
        if t.op == 'poly':
            atoms = []
            for mono, c in t.args:
                for a, e in mono:
                    if a not in atoms:
                        atoms.append(a)
            self.rng.shuffle(atoms)
            for a in atoms:
                c0, c1, power = Fraction(0), Fraction(0), None
                ok = True
                for mono, c in t.args:
                    x, mine = c, None
                    for b, e in mono:
                        if b is a:
                            mine = e
                        else:
                            x = x * self.value(b) ** e
                    if mine is None:
                        c0 = c0 + x
                    elif mine in (1, -1) and power in (None, mine):
                        power, c1 = mine, c1 + x
                    else:
                        ok = False
                if not ok or not c1 or c1 != c1 or c0 != c0:
                    continue
                x = (target - c0) / c1
                if power == -1:
                    if not x:
                        continue
                    x = 1 / x
                if self.settle(a, x, depth + 1):
                    return True
            return False
        if t.op in ('floor', 'trunc'):
            return self.settle(t.args[0], math.floor(target) + Fraction(
                self.rng.choice((0, 1, 5, 9)), 10), depth + 1)
        if t.op == 'rint':
            return self.settle(t.args[0], round(target) + Fraction(
                self.rng.choice((-4, 0, 0, 3)), 10), depth + 1)
        if t.op == 'inv':
            return bool(target) and self.settle(t.args[0], 1 / target,
                                                depth + 1)
        if t.op == 'min':
            return self.settle(self.rng.choice(t.args), target, depth + 1)
        if t.op == 'abs':
            return target >= 0 and self.settle(
                t.args[0], target * self.rng.choice((1, -1)), depth + 1)
        if t.op == 'ite':
            return self.settle(t.args[1 if w.cond(t.args[0], {}) else 2],
                               target, depth + 1)
        if T.free(t) and any(x.op == 'bv' for x in T.free(t)):
            return False
        if not isinstance(target, Fraction):
            target = Fraction(target)
        if kind(t) == 'int' and target.denominator != 1:
            target = Fraction(self.rng.choice((math.floor(target),
                                               math.ceil(target))))
        if t.op == 'sym':
            if t in w.domains:
                return False
            if kind(t) in ('int', 'num'):
                w.vals[t] = target
            else:
                v = w.ev(t, {})
                if not isinstance(v, Tok):
                    return False
                w.over[v.key] = target
            return True
        w.memo.clear()
        v = w.ev(t, {})
        if isinstance(v, Tok):
            w.over[v.key] = target
            return True
        if t in w.keyof:
            w.over[w.keyof[t]] = target
            return True
        return False


MORE = 15
SECONDS = 12                    # a tier that looks longer sets more


def closed(facts):
    cons, truths = [], []
    for c, strict in facts.cons:
        t = T.from_poly(dict(c))
        if isinstance(t, Term) and not any(x.op == 'bv' for x in T.free(t)):
            cons.append((t, strict))
    for c, val in facts.truths.items():
        if not any(x.op == 'bv' for x in T.free(c)):
            truths.append((c, val))
    return cons, truths


def search(a, b, facts=None, domains=None, tries=400, seed=1, env=None,
           small=6, region=None):
    """A Witness that a and b differ under facts, or None."""
    extra = []
    if facts is not None:
        extra = [T.from_poly(dict(c)) for c, s in facts.cons]
    pool, ints = constants(a, b, *extra)
    hard = closed(facts) if facts is not None else ([], [])
    soft = closed(region) if region is not None else ([], [])
    late = None
    for i in range(tries * (MORE if region is not None else 1)):
        if i >= tries:
            # longer where a region is known in which they may differ
            late = late or time.time() + SECONDS
            if time.time() > late:
                break
        w = World(seed * 7919 + i, pool, ints, domains, small=small)
        try:
            if i % 4 == 1 and region is not None:
                Guide(w, (hard, soft)).run()
            if facts is not None and not holds(w, facts, env or {}):
                if i % 4 == 1 or not Guide(w, (hard, ([], []))).run() or \
                        not holds(w, facts, env or {}):
                    continue
        except (Abort, RecursionError):
            continue
        found = compare(w, a, b, env, i)
        if found is not None:
            return found
    return None


def compare(w, a, b, env, i):
    """A Witness if a and b differ in world w."""
    try:
        try:
            va = w.ev(a, env or {})
        except Undefined:
            va = Tok('undefined')
        vb = w.ev(b, env or {})
    except (Abort, RecursionError):
        return None
    if same(va, vb):
        return None
    path, x, y = where_differ(va, vb)
    ins = []
    for s, v in w.vals.items():
        if '#' not in s.args[0] if s.op == 'sym' else True:
            ins.append((T.show(s, 3), v))
    return Witness(i, ins[:12], x, y, ' (%s)' % path.strip() if path else '')


class Walk(Guide):
    """A Guide that mostly takes back what makes it worse."""

    def state(self):
        bad = []
        for k, (cons, truths) in enumerate((self.hard, self.soft)):
            for x, y in cons:
                v = None
                try:
                    v = self.value(x)
                except Abort:
                    pass
                if v is None or v != v or v < 0 or (y and v == 0):
                    bad.append((x, y, 2 - k))
            for x, y in truths:
                try:
                    ok = self.w.cond(x, {}) == y
                except Abort:
                    ok = False
                if not ok:
                    bad.append((x, y, 2 - k))
        return bad

    def run(self, steps=60):
        w = self.w
        bad = self.state()
        for k in range(steps):
            if not bad:
                return True
            start = dict(w.vals), dict(w.over)
            x, y, z = self.rng.choice(bad)
            if z == 1 and self.rng.random() < .5:
                x, y, z = max(bad, key=lambda q: q[2])
            try:
                self.fix(x, y)
            except (Abort, OverflowError, ZeroDivisionError):
                self.jump()
            w.memo.clear()
            w.steps = 0
            new = self.state()
            if sum(q[2] for q in new) > sum(q[2] for q in bad) and \
                    self.rng.random() < .75:
                w.vals, w.over = start
                w.memo.clear()
            else:
                bad = new
        return not bad

    def jump(self):
        """Some input gets another value."""
        xs = [q for q in self.w.vals if q.op == 'sym' and kind(q) in (
            'int', 'num') and q not in self.w.domains]
        if xs:
            q = self.rng.choice(sorted(xs, key=repr))
            self.w.vals[q] = Fraction(self.rng.randint(1, 9))


def edges(a, b):
    """Quantities compared with zero on one side only."""
    def of(t):
        return {q for q in T.atoms(t, lambda q: q.op in (
            'lt', 'le', 'eq') and len(q.args) == 1)}
    x, y = of(a), of(b)
    return sorted({q.args[0] for q in (x | y) - (x & y)}, key=repr)


def route(t, d, rng):
    """Conditions under which t asks for d, on one of the ways to it."""
    memo = {}

    def has(x):
        r = memo.get(x)
        if r is None:
            r = x is d or any(has(y) for y in parts(x))
            memo[x] = r
        return r

    def parts(x):
        out, todo = [], list(x.args) if isinstance(x, Term) else []
        while todo:
            y = todo.pop()
            if isinstance(y, Term):
                out.append(y)
            elif isinstance(y, tuple):
                todo += y
        return out
    out = []
    for _ in range(400):
        if t is d or not has(t):
            break
        if t.op == 'ite':
            c, x, y = t.args
            ways = [z for z in (c, x, y) if has(z)]
            z = rng.choice(ways)
            if z is not c:
                out.append((c, z is x))
            elif c.op in ('lt', 'le', 'eq'):
                break
            t = z
        elif t.op in ('and', 'or'):
            z = rng.choice([z for z in t.args if has(z)])
            out += [(q, t.op == 'and') for q in t.args if q is not z]
            t = z
        else:
            t = rng.choice([z for z in parts(t) if has(z)])
    return out


def flat(pairs):
    """The conditions, as parts that hold at the same time."""
    out, todo = [], list(pairs)
    while todo:
        c, v = todo.pop()
        if c.op == 'not':
            todo.append((c.args[0], not v))
        elif c.op == ('and' if v else 'or'):
            todo += [(q, v) for q in c.args]
        elif (c, v) not in out:
            out.append((c, v))
    return out


def guided(a, b, facts, domains, region, small=6, seed=1, seconds=None):
    """A Witness where a quantity only one side asks for is about zero, or
    inside the region."""
    pool, ints = constants(a, b, *[T.from_poly(dict(c))
                                   for c, s in facts.cons])
    hard = closed(facts)
    there = [(c, v) for c, v in closed(region)[1]
             if facts.query(c) is None] if region is not None else []
    ds = edges(a, b)[:40]
    rng = random.Random(seed)
    end = time.time() + (seconds or SECONDS)
    for i in range(4000):
        if time.time() > end or not ds and not there:
            return None
        w = World(seed * 104729 + 2 * i, pool, ints, domains, nan=0.0,
                  small=small)
        soft = there
        if ds and (not there or rng.random() < .8):
            d = rng.choice(ds)
            soft = route(rng.choice((a, b)), d, rng) \
                if rng.random() < .9 else []
            m = {q: num(rng.randint(0, small - 1))
                 for t in [d] + [c for c, v in soft]
                 for q in T.free(t) if q.op == 'bv'}
            soft = [(T.subst(c, m), v) for c, v in soft] + [
                (T.eq0(T.subst(d, m)), rng.random() < .7)]
            soft = [(c, v) for c, v in flat(soft) if not T.atoms(
                c, lambda q: q.op == 'bv') and c.op not in ('true', 'false')]
        try:
            if not Walk(w, (hard, ([], soft))).run(80) or \
                    not holds(w, facts, {}):
                continue
        except (Abort, RecursionError):
            continue
        found = compare(w, a, b, {}, i)
        if found is not None:
            return found
    return None


# ------------------------------------------------------------ soundness guard

def names(t):
    """Uninterpreted operations a term contains."""
    out = set()
    for x in T.atoms(t, lambda q: q.op in (
            'call', 'mcall', 'havoc', 'eff', 'ndop', 'strop', 'fmt',
            'percent', 'join', 'split', 'sorted', 'in', 'isinstance', 'fn',
            'B', 'nonzero', 'nzidx', 'nzcount', 'unbound', 'bigmul',
            'raises', 'any', 'range', 'popped', 'tobool', 'repr', 'cast',
            'func', 'partial', 'method', 'slice', 'globals', 'tofloat',
            'toint', 'star')):
        if x.op == 'B':
            if x.args[0] == 'fix':
                out.add(('fix',))
            continue
        if x.op == 'fn' and x.args[0] in INTERPRETED:
            continue
        if x.op == 'cast' and x.args[0] in ('raster', 'half'):
            continue
        nm = [y for y in x.args if isinstance(y, str)]
        if nm and nm[0] in ('numpy.unique', 'numpy.sort'):
            continue
        out.add((x.op,) + tuple(nm[:1]))
    return out


INTERPRETED = {'pi', 'e', 'pow', 'arctan2', 'log', 'exp', 'sin', 'cos',
               'tan', 'arctan', 'arcsin', 'arccos', 'log10', 'log2'}


def feedback(t):
    """Summarised calls inside the arguments of a call of the same function:
    what one of the calls left behind is given to another."""
    out = set()
    for x in T.atoms(t, lambda q: q.op == 'call' and str(
            q.args[0]).startswith('repo:')):
        for y in x.args[1:]:
            out |= {z for z in T.atoms(y, lambda q: q.op == 'call' and
                                       q.args[0] == x.args[0])}
    return out


def without_feedback(a, b):
    """a without the results that are fed back where b feeds none back."""
    fed = feedback(a)
    if not fed or feedback(b):
        return a
    return T.subst(a, {x: T.sym('earlier', 'num') for x in fed})


def foreign(a, b):
    """Operations of a that b (the specification) does not use, and library
    operations without a closed form that only b uses."""
    na, nb = names(without_feedback(a, b)), names(b)
    if any(x[0] == 'call' and 'pixel_size_grid' in str(x[-1])
           for x in na & nb):
        # the cell sizes are there: the geotransform stands for nothing else
        na = na - {('mcall', 'GetGeoTransform')}
    return (na - nb) | {x for x in nb - na if len(x) > 1 and str(
        x[1]).startswith(('numpy.', 'scipy.', 'builtins.', 'pandas.'))}
