"""Models of the language built-ins and of the libraries the tree uses.

Arrays are kept pointwise: the content of an array is a scalar term over the
index symbols IX[0], IX[1], ... (`at` substitutes an index).  A store makes the
content conditional on the index, a mask store on the mask, a slice or a flip
substitutes the index.  Library calls that only compute are uninterpreted
terms; the others are recorded as events.
"""

import ast
import re
import string as _string

from . import terms as T
from . import logic
from .terms import (Term, mk, num, string, const, add, sub, mul, neg, ite,
                    tand, tor, tnot, TRUE, FALSE, NONE, truth, subst, fresh,
                    is_const, const_value, kind)
from .values import (Value, Tup, Ref, Func, Bound, Method, Cls, Mod, Range,
                     SliceV, Choice, Seq, Partial, ListObj, DictObj, InstObj,
                     FrameObj, ArrObj)

IX = [T.sym('ix%d' % k, 'int') for k in range(4)]


# ------------------------------------------------------------ array terms

def elem(x, *idx):
    """Element of a closed array value."""
    if x.op == 'B' and x.args[0] == 'arr' and len(x.args[1]) == len(idx):
        return T.instantiate(x, idx)[1]
    if x.op == 'ite':
        return ite(x.args[0], elem(x.args[1], *idx), elem(x.args[2], *idx))
    if x.op == 'list' and len(idx) == 1 and idx[0].op == 'num':
        try:
            return x.args[int(idx[0].args[0])]
        except IndexError:
            pass
    if x.op == 'col' and len(idx) == 1:
        return mk('cell', x.args[0], idx[0], x.args[1])
    if x.op == 'B' and x.args[0] == 'seq' and len(x.args[1]) == 1 and \
            len(idx) == 1:
        ns, g, v = T.instantiate(x, idx)
        if g is TRUE:
            return v
    return mk('at', x, *idx)


T.HOOKS['at'] = elem


def item(x, i):
    """x[i] of an opaque container."""
    if x.op in ('tuple', 'list') and i.op == 'num':
        try:
            return x.args[int(i.args[0])]
        except IndexError:
            pass
    if x.op == 'dict':
        for kv in x.args:
            if kv.args[0] is i:
                return kv.args[1]
    if x.op == 'ite':
        return ite(x.args[0], item(x.args[1], i), item(x.args[2], i))
    if x.op == 'row':
        return mk('cell', x.args[0], x.args[1], i)
    if x.op == 'table' and i.op == 'str':
        return mk('col', x, i)
    if x.op == 'B' and x.args[0] == 'seq' and len(x.args[1]) == 1 and \
            kind(i) == 'int':
        ns, g, v = T.instantiate(x, (i,))
        if g is TRUE:
            return v
    return mk('item', x, i)


T.HOOKS['item'] = item


def at(term, idx):
    """Content of an array at an index."""
    mp = {IX[k]: v for k, v in enumerate(idx) if v is not IX[k]}
    return subst(term, mp)


def ndim_of(o):
    return len(o.shape) if o.shape is not None else 2


def is_array_term(t):
    return any(T.occurs(x, t) for x in IX)


PURE_PREFIX = ('numpy.', 'math.', 'os.path.', 'scipy.', 'inspect.',
               'itertools.', 'operator.', 'time.', 'datetime.', 'getpass.',
               'builtins.', 'shapely.', 'platform.', 'socket.', 're.',
               'osr.', 'string.', 'collections.')

PURE_EXT = {'os.getcwd', 'os.listdir', 'os.walk', 'os.stat', 'glob.glob',
            'gdal.Open', 'gdal.GetDriverByName', 'gdal.AllRegister',
            'gdal.TranslateOptions', 'gdal.ParseCommandLine',
            'gdal.UseExceptions', 'gdal.SetConfigOption', 'gdal.WarpOptions',
            'gdal.OpenEx', 'gdal.GetDataTypeName', 'os.getpid', 'os.access',
            'os.getenv', 'os.scandir', 'ogr.Open', 'pathlib.Path',
            'gdal.BuildVRTOptions', 'glob.iglob', 'sys._getframe',
            'pandas.read_csv', 'fiona.open', 'os.fspath', 'os.environ.get',
            'threading.Lock', 'hashlib.md5', 'numexpr.evaluate',
            'gdal.GetLastErrorMsg', 'os.cpu_count', 'gdal.IdentifyDriver'}

PURE_METHODS = {
    'GetRasterBand', 'GetGeoTransform', 'GetProjection', 'GetNoDataValue',
    'ReadAsArray', 'GetDriver', 'GetProjectionRef', 'Checksum', 'GetLayer',
    'CloneGeogCS', 'TransformPoint', 'ExportToWkt', 'GetDescription',
    'query', 'intersection', 'intersects', 'buffer', 'parse_args', 'group',
    'groups', 'match', 'search', 'decode', 'encode', 'hexdigest', 'tolist',
    'isoformat', 'strftime', 'keys', 'values', 'items', 'get', 'lower',
    'upper', 'GetSpatialRef', 'tobytes', 'exists', 'is_file', 'is_dir',
    'iterdir', 'resolve', 'IsNull', 'GetRasterColorTable', 'union',
    'Get_rank', 'Get_size', 'total_seconds', 'timetuple', 'contains',
}

LOGGING_METHODS = {'debug', 'info', 'warning', 'warn', 'error', 'critical',
                   'exception', 'log', 'addHandler', 'setLevel',
                   'setFormatter', 'removeHandler', 'isEnabledFor'}

OPEN_ERRORS = {
    'gdal.Open': ('RuntimeError',), 'gdal.OpenEx': ('RuntimeError',),
    'pandas.read_csv': ('FileNotFoundError', 'OSError', 'IOError'),
    'subprocess.check_output': ('OSError', 'FileNotFoundError',
                                'CalledProcessError'),
    'subprocess.run': ('OSError', 'FileNotFoundError'),
    'subprocess.Popen': ('OSError', 'FileNotFoundError'),
    'netCDF4.Dataset': ('IOError', 'OSError'),
    '.WriteArray': ('ValueError',),
    '.index': ('ValueError',),
}

EXC_TREE = {
    'BaseException': None, 'Exception': 'BaseException',
    'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception',
    'AttributeError': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'NameError': 'Exception', 'OSError': 'Exception', 'IOError': 'OSError',
    'EnvironmentError': 'OSError', 'FileNotFoundError': 'OSError',
    'FileExistsError': 'OSError', 'PermissionError': 'OSError',
    'NotADirectoryError': 'OSError', 'IsADirectoryError': 'OSError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RecursionError': 'RuntimeError', 'StopIteration': 'Exception',
    'TypeError': 'Exception', 'ValueError': 'Exception',
    'UnicodeError': 'ValueError', 'SubprocessError': 'Exception',
    'CalledProcessError': 'SubprocessError',
    'TimeoutExpired': 'SubprocessError', 'WindowsError': 'OSError',
}
SAME_EXC = {'IOError': 'OSError', 'EnvironmentError': 'OSError',
            'WindowsError': 'OSError'}

BUILTINS = {
    'abs', 'all', 'any', 'bool', 'bytes', 'callable', 'classmethod',
    'dict', 'dir', 'divmod', 'enumerate', 'eval', 'exec', 'filter', 'float',
    'format', 'frozenset', 'getattr', 'globals', 'hasattr', 'hash', 'id',
    'input', 'int', 'isinstance', 'issubclass', 'iter', 'len', 'list',
    'locals', 'map', 'max', 'min', 'next', 'object', 'open', 'ord', 'chr',
    'pow', 'print', 'property', 'range', 'repr', 'reversed', 'round', 'set',
    'setattr', 'slice', 'sorted', 'staticmethod', 'str', 'sum', 'super',
    'tuple', 'type', 'vars', 'zip', '__import__', 'delattr', 'bytearray',
    'complex', 'hex', 'memoryview', 'Ellipsis', 'NotImplemented',
    '__builtins__', 'exit', 'quit', '__doc__',
} | set(EXC_TREE) | {'Warning', 'UserWarning', 'DeprecationWarning',
                     'EOFError', 'StopAsyncIteration', 'GeneratorExit'}

FLOAT_DTYPES = {'float', 'float16', 'float32', 'float64', 'double',
                'single', 'longdouble', 'f', 'd', 'f4', 'f8', '<f4', '<f8',
                'floating', 'float_'}
INT_DTYPES = {'int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
              'uint32', 'uint64', 'i', 'i4', 'i8', 'l', 'intp', 'int_',
              'u1', 'integer', 'long'}
BOOL_DTYPES = {'bool', 'bool_', '?'}


class Models(object):

    def __init__(self, interp):
        self.ip = interp
        self.given = {}            # condition -> arm that holds
        self.shared_conds = set()  # choices of arrays a step changes
        self.aliases = {}         # location -> (location it is part of, how)
        self.missing = set()      # packages that cannot be imported
        self.step_errors = None   # what summarised functions may raise
        self.missing_as = 'ModuleNotFoundError'
        self.iterations = None    # loops seen, if they are to be recorded
        self.scripted = None      # what communication calls return
        self.overrides = {}       # qualified function name -> handler
        self.assumptions = []     # callables adding to a Facts
        self._facts_cache = {}
        self.alloc_count = 0
        self.cfg_types = True
        self.geographic = False  # rasters are in degrees
        self.config_model = None  # section -> options, if it is known

    # -------------------------------------------------------- naming

    def canon(self, name):
        for a, b in (('osgeo.gdalconst', 'gdal'), ('gdalconst', 'gdal'),
                     ('osgeo.gdal_array', 'gdal_array'),
                     ('osgeo.gdal', 'gdal'), ('osgeo.osr', 'osr'),
                     ('osgeo.ogr', 'ogr'), ('posixpath', 'os.path'),
                     ('np', 'numpy'), ('numpy.core', 'numpy')):
            if name == a or name.startswith(a + '.'):
                name = b + name[len(a):]
        return CANON.get(name, name)

    def override(self, f):
        q = '%s.%s' % (f.module, f.name)
        if f.cls is not None:
            pass
        h = self.overrides.get(q)
        if h is None:
            return None
        if f.wrapped is None and isinstance(f.node, ast.FunctionDef) and \
                f.frame is not None:
            return h
        return h

    def builtin(self, name):
        if name == 'True':
            return TRUE
        if name in BUILTINS:
            return mk('ext', 'builtins.' + name)
        return None

    def is_sub(self, e, n):
        e, n = SAME_EXC.get(e, e), SAME_EXC.get(n, n)
        if n in ('Exception', 'BaseException'):
            return e not in ('SystemExit', 'KeyboardInterrupt') or \
                n == 'BaseException'
        seen = 0
        while e is not None and seen < 10:
            if SAME_EXC.get(e, e) == n:
                return True
            e = EXC_TREE.get(e)
            seen += 1
        return False

    # -------------------------------------------------------- facts

    def facts(self, st, extra=()):
        key = (st.pc, tuple(self.ip.loopstack), len(self.assumptions))
        f = self._facts_cache.get(key)
        if f is None:
            f = logic.Facts()
            for a in self.assumptions:
                a(f)
            for v, n in self.ip.loopstack:
                f.ge(v)
                if n is not None:
                    f.ge(sub(n, v), num(1))
            for c in st.pc:
                if not f._add(c, True):
                    break
            if len(self._facts_cache) > 4000:
                self._facts_cache.clear()
            self._facts_cache[key] = f
        if extra:
            f = f.copy()
            for c in extra:
                f._add(c, True)
        return f

    def nonneg(self, t, st):
        if t.op == 'num':
            return t.args[0] >= 0
        if T.kind(t) not in ('int', 'num', 'any', 'bool'):
            return False
        return self.facts(st).entails_ge(t)

    def ixfacts(self, shape, st):
        f = self.facts(st).copy()
        if shape is not None:
            for k, d in enumerate(shape):
                f.ge(IX[k])
                f.ge(sub(d, IX[k]), num(1))
        return f

    def simp(self, t, shape, st):
        """Simplify array content by the index bounds."""
        if T.size(t) > 4000 or not is_array_term(t):
            return t
        return logic.resolve(t, self.ixfacts(shape, st))

    # -------------------------------------------------------- arrays

    def newarr(self, st, term, shape=None, dtype=None, mask=None):
        self.alloc_count += 1
        return self.ip.alloc(st, ArrObj(
            term, tuple(shape) if shape is not None else None, dtype, mask))

    def opaque_array(self, st, x, shape=None, dtype=None, nd=2):
        """Array reference for a closed array value."""
        if shape is None:
            shape = self.shape_of_term(x, nd)
        elif x.op != 'B':
            T.SHAPES.setdefault(x, tuple(shape))
        return self.newarr(st, elem(x, *IX[:len(shape)]), shape, dtype)

    def shape_of_term(self, x, nd=2):
        return T.natural_shape(x, nd)

    def read_shape(self, x):
        recv, args = x.args[0], x.args[2:]
        if len(args) >= 4:
            return (args[3], args[2])
        ds = recv
        if recv.op == 'mcall' and recv.args[1] == 'GetRasterBand':
            ds = recv.args[0]
        return (mk('attr', ds, 'RasterYSize'), mk('attr', ds, 'RasterXSize'))

    def arrval(self, o):
        """Closed value term of an array object."""
        body = self._close_arr(o.term, o.shape)
        if o.mask is not None:
            return mk('masked', body, self._close_arr(o.mask, o.shape))
        return body

    def _close_arr(self, term, shape):
        nd = len(shape) if shape is not None else 2
        return T.binder('arr', IX[:nd], (), (tuple(shape or ()), term))

    def arr_of(self, v, st):
        """ArrObj view of a value (list, scalar, array, column), or None
        for scalars."""
        a = self.ip.arr(st, v)
        if a is not None:
            return a
        if isinstance(v, Ref):
            o = st.heap.get(v.loc)
            if isinstance(o, ListObj):
                return self.list_arr(o, v, st)
        if isinstance(v, Tup):
            return self.list_arr(ListObj([('e', x) for x in v.items]), v, st)
        if isinstance(v, (Range, Seq)):
            s = self.as_seq(v, st, None)
            return ArrObj(self.pt(s.elem(IX[0]), st), (s.n,), 'float')
        if isinstance(v, Term):
            if v.op == 'col':
                return ArrObj(mk('cell', v.args[0], IX[0], v.args[1]),
                              (mk('len', v.args[0]),), 'float')
            if self.arraylike(v):
                s = self.shape_of_term(v)
                return ArrObj(elem(v, *IX[:len(s)]), s,
                              'raster' if v.op == 'mcall' else None)
            if v.op == 'call' and v.args[0] in ARRAY1D:
                return ArrObj(elem(v, IX[0]), (mk('size', v),), None)
        if isinstance(v, Choice):
            return self.choice_arr(v, st, self.arr_of)
        return None

    def arraylike(self, v):
        return (v.op == 'mcall' and v.args[1] == 'ReadAsArray') or \
            (v.op == 'B' and v.args[0] == 'arr') or \
            (v.op == 'sym' and T.flag(v, 'array'))

    def list_arr(self, o, v, st):
        if o.known():
            vals = o.values()
            subs = [self.arr_of(x, st) for x in vals]
            n = num(len(vals))
            if any(s is not None for s in subs):
                body = None
                sh = next(s.shape for s in subs if s is not None)
                if sh is None:
                    return None
                nd = len(sh)
                up = {IX[k]: IX[k + 1] for k in range(nd)}
                for k, (x, s) in enumerate(zip(vals, subs)):
                    t = subst(s.term, up) if s is not None else \
                        self.pt(x, st)
                    body = t if body is None else ite(
                        T.eq(IX[0], num(k)), t, body)
                return ArrObj(body, (n,) + tuple(sh), 'float')
            body = num(0)
            for k, x in enumerate(vals):
                t = self.pt(x, st)
                body = t if k == 0 else ite(T.eq(IX[0], num(k)), t, body)
            return ArrObj(body, (n,), 'float')
        lt = self.ip.list_term(o, st)
        return ArrObj(elem(lt, IX[0]), (self.length(v, st),), 'float')

    def pt(self, v, st):
        """Pointwise term of a value."""
        if isinstance(v, Term):
            if v.op == 'col':
                return mk('cell', v.args[0], IX[0], v.args[1])
            if self.arraylike(v):
                return elem(v, *IX[:len(self.shape_of_term(v))])
            return v
        a = self.ip.arr(st, v)
        if a is not None:
            return a.term
        if isinstance(v, Choice):
            return ite(v.cond, self.pt(v.a, st), self.pt(v.b, st))
        return self.ip.term(v, st)

    # -------------------------------------------------------- views

    def read_view(self, st, o):
        base, fwd, shape = o.view
        b = st.heap[base]
        if b.view is not None:
            b = self.read_view(st, b)
        return ArrObj(at(b.term, fwd), shape, b.dtype,
                      at(b.mask, fwd) if b.mask is not None else None)

    def write_full(self, st, ref, term, node, inplace=False):
        o = st.heap[ref.loc]
        if o.view is not None:
            base, fwd, shape = o.view
            self._write_view(st, o, term)
            return
        st.heap[ref.loc] = ArrObj(self.cast(o.dtype, term), o.shape,
                                  o.dtype, o.mask)

    def _write_view(self, st, o, term):
        """Store new content of a view into its base: forward maps are
        ix + lo per kept dimension, constants elsewhere."""
        base, fwd, shape = o.view
        b = st.heap[base]
        conds, back = [], {}
        kept = 0
        for k, f in enumerate(fwd):
            j = IX[kept] if kept < len(shape) else None
            if j is not None and T.occurs(j, f):
                lo = sub(f, j)
                if not T.occurs(j, lo):
                    back[j] = sub(IX[k], lo)
                    conds.append(T.le(lo, IX[k]))
                    conds.append(T.lt(sub(IX[k], lo), shape[kept]))
                else:                      # reversed: f = c - j
                    c = add(f, j)
                    back[j] = sub(c, IX[k])
                    conds.append(T.le(IX[k], c))
                    conds.append(T.lt(sub(c, IX[k]), shape[kept]))
                kept += 1
            else:
                conds.append(T.eq(IX[k], f))
        new = subst(term, back)
        nb = b
        if b.view is not None:
            cur = self.read_view(st, b)
            t = self.simp(ite(tand(*conds), new, cur.term), cur.shape, st)
            self._write_view(st, b, t)
            return
        t = self.simp(ite(tand(*conds), self.cast(b.dtype, new), b.term),
                      b.shape, st)
        st.heap[base] = ArrObj(t, b.shape, b.dtype, b.mask)

    # -------------------------------------------------------- dtypes

    def dtype(self, v, st):
        if v is None or v is NONE:
            return None
        if isinstance(v, Term):
            if v.op == 'str':
                n = v.args[0]
            elif v.op == 'ext':
                n = v.args[0].split('.')[-1]
            elif v.op == 'dtype':
                return v.args[0]
            else:
                return None
            n = n.lstrip('<>=')
            if n in ('float16', 'half', 'f2', 'e'):
                return 'half'
            if n in FLOAT_DTYPES:
                return 'float'
            if n in INT_DTYPES:
                return 'int'
            if n in BOOL_DTYPES:
                return 'bool'
        return None

    def cast(self, dtype, t):
        if dtype in (None, 'float'):
            if kind(t) == 'bool' and dtype == 'float' and t.op != 'bool':
                return ite(t, num(1), num(0))
            if t.op == 'bool':
                return num(1 if t.args[0] else 0)
            return t
        if dtype == 'bool':
            return truth(t)
        if t.op == 'ite':
            return ite(t.args[0], self.cast(dtype, t.args[1]),
                       self.cast(dtype, t.args[2]))
        if kind(t) == 'bool':
            return ite(t, num(1), num(0))
        if dtype == 'int':
            if t.op == 'nan':
                return mk('cast', 'int', t)
            return T.trunc(t)
        if kind(t) == 'int':
            return t
        if t.op == 'at' or t.op == 'havoc':
            return t
        if t.op == 'cast':
            return t
        if t.op == 'B' and t.args[0] == 'last':
            return t
        return mk('cast', dtype, t)

    def join_dtype(self, *ds):
        if all(d == 'bool' for d in ds):
            return 'bool'
        if 'float' in ds or None in ds or 'half' in ds:
            return 'float'
        if 'raster' in ds:
            return 'raster'
        return 'int'

    # -------------------------------------------------------- operators

    def const_sets(self, a, b, st):
        """Members of two sets (one may be the keys of a table) when they
        are constants."""
        found, out = False, []
        for x in (a, b):
            o = st.heap.get(x.loc) or self.ip.base.heap.get(x.loc) \
                if isinstance(x, Ref) else None
            if isinstance(o, ListObj) and o.distinct:
                found = True
            elif not isinstance(x, Tup):
                return None
            vals = self.concrete(x, st)
            if vals is None:
                return None
            vals = [v for v in vals if isinstance(v, Term)]
            if not all(T.is_const(v) for v in vals):
                return None
            out.append(vals)
        return out if found else None

    def binop(self, op, a, b, st, node):
        ip = self.ip
        if isinstance(a, Choice):
            a = ip.refine(a, st)
        if isinstance(b, Choice):
            b = ip.refine(b, st)
        if isinstance(a, Choice):
            return ip.merge_values(a.cond, self.binop(op, a.a, b, st, node),
                                   self.binop(op, a.b, b, st, node))
        if isinstance(b, Choice):
            return ip.merge_values(b.cond, self.binop(op, a, b.a, st, node),
                                   self.binop(op, a, b.b, st, node))
        # user defined operators
        if isinstance(a, Ref) and isinstance(st.heap.get(a.loc), InstObj):
            m = ip.class_attr(st.heap[a.loc].cls,
                              OPNAMES.get(type(op), '__none__'), st)
            if m is not None:
                return ip.call(Bound(m, a), [b], {}, st, None, node)
        sets = self.const_sets(a, b, st)
        if sets is not None and type(op) in (ast.Sub, ast.BitAnd, ast.BitOr,
                                             ast.BitXor):
            x, y = sets
            if isinstance(op, ast.Sub):
                r = [v for v in x if v not in y]
            elif isinstance(op, ast.BitAnd):
                r = [v for v in x if v in y]
            elif isinstance(op, ast.BitOr):
                r = x + [v for v in y if v not in x]
            else:
                r = [v for v in x if v not in y] + \
                    [v for v in y if v not in x]
            return ip.alloc(st, ListObj([('e', v) for v in r], True))
        seq_a = self.is_listlike(a, st)
        seq_b = self.is_listlike(b, st)
        if isinstance(op, ast.Add) and (seq_a or seq_b) and \
                ip.arr(st, a) is None and ip.arr(st, b) is None:
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            return ip.alloc(st, ListObj(self.list_segs(a, st, node) +
                                        self.list_segs(b, st, node)))
        if isinstance(op, ast.Mult) and (seq_a or seq_b) and \
                ip.arr(st, a) is None and ip.arr(st, b) is None:
            s, n = (a, b) if seq_a else (b, a)
            if isinstance(n, Term) and n.op == 'num':
                k = int(n.args[0])
                if isinstance(s, Tup):
                    return Tup(s.items * k)
                return ip.alloc(st, ListObj(self.list_segs(s, st, node) * k))
            if isinstance(n, Term) and isinstance(s, Ref):
                o = st.heap[s.loc]
                if o.known() and len(o.segs) == 1:
                    t = fresh('rep')
                    return ip.alloc(st, ListObj([
                        ('c', (t,), (n,), TRUE, o.segs[0][1])]))
        if isinstance(op, ast.Mod) and isinstance(a, Term) and \
                kind(a) == 'str':
            return self.percent(a, b, st, node)
        if isinstance(op, ast.Add) and isinstance(a, Term) and \
                isinstance(b, Term) and (kind(a) == 'str' or
                                         kind(b) == 'str'):
            return T.cat(a, b)
        if isinstance(op, ast.Mult) and isinstance(a, Term) and \
                a.op == 'str' and isinstance(b, Term) and b.op == 'num':
            return string(a.args[0] * int(b.args[0]))
        if isinstance(op, ast.Div) and isinstance(a, Term) and \
                a.op == 'path':
            return mk('path', T.pjoin(a.args[0], self.path_of(b, st)))
        aa = self.operand(a, st)
        bb = self.operand(b, st)
        if aa is not None or bb is not None:
            return self.array_binop(op, a, aa, b, bb, st, node)
        return self.arith(op, ip.term(a, st), ip.term(b, st), node, st)

    def is_listlike(self, v, st):
        if isinstance(v, Tup):
            return True
        if isinstance(v, Ref):
            return isinstance(st.heap.get(v.loc), ListObj)
        return False

    def operand(self, v, st):
        """ArrObj for arithmetic operands that are arrays."""
        a = self.ip.arr(st, v)
        if a is not None:
            return a
        if isinstance(v, Term) and (v.op == 'col' or self.arraylike(v)):
            return self.arr_of(v, st)
        if isinstance(v, Choice):
            return self.choice_arr(v, st, self.operand)
        return None

    def choice_arr(self, v, st, f):
        """A choice between two arrays read as one array."""
        a = f(v.a, st)
        b = f(v.b, st) if a is not None else None
        if b is None:
            return None
        sa, sb = a.shape, b.shape
        if sa is None or sb is None:
            if sa is not sb:
                return None
            sh = None
        elif len(sa) != len(sb):
            return None
        else:
            sh = tuple(ite(v.cond, x, y) for x, y in zip(sa, sb))
        mask = None
        if a.mask is not None or b.mask is not None:
            mask = ite(v.cond, a.mask if a.mask is not None else FALSE,
                       b.mask if b.mask is not None else FALSE)
        return ArrObj(ite(v.cond, a.term, b.term), sh,
                      a.dtype if a.dtype == b.dtype else None, mask)

    def align(self, aa, bb, ta, tb):
        """Broadcast shapes; shifts the index symbols of the operand with
        fewer dimensions."""
        if aa is None or bb is None:
            s = aa or bb
            return ta, tb, s.shape
        sa, sb = aa.shape, bb.shape
        if sa is None or sb is None:
            return ta, tb, sa or sb
        if len(sa) < len(sb):
            d = len(sb) - len(sa)
            ta = subst(ta, {IX[k]: IX[k + d] for k in range(len(sa))})
            return ta, tb, self.bshape((num(1),) * d + tuple(sa), sb)
        if len(sb) < len(sa):
            d = len(sa) - len(sb)
            tb = subst(tb, {IX[k]: IX[k + d] for k in range(len(sb))})
            return ta, tb, self.bshape(sa, (num(1),) * d + tuple(sb))
        return ta, tb, self.bshape(sa, sb)

    def bshape(self, a, b):
        out = []
        for x, y in zip(a, b):
            if x is y or y is num(1):
                out.append(x)
            elif x is num(1):
                out.append(y)
            else:
                out.append(x)
        return tuple(out)

    def array_binop(self, op, a, aa, b, bb, st, node):
        ta = aa.term if aa is not None else self.pt(a, st)
        tb = bb.term if bb is not None else self.pt(b, st)
        if not isinstance(ta, Term) or not isinstance(tb, Term):
            return self.ip.havoc(node, 'array operand')
        ta, tb, shape = self.align(aa, bb, ta, tb)
        t = self.arith(op, ta, tb, node, st)
        mask = None
        if aa is not None and aa.mask is not None:
            mask = aa.mask
        if bb is not None and bb.mask is not None:
            mask = tor(mask, bb.mask) if mask is not None else bb.mask
        if mask is not None and aa is not None:
            t = ite(mask, ta, t)
        dt = self.join_dtype(aa.dtype if aa else ('int' if kind(ta) == 'int'
                                                  else 'float'),
                             bb.dtype if bb else ('int' if kind(tb) == 'int'
                                                  else 'float'))
        if isinstance(op, ast.Div):
            dt = 'float'
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and kind(t) == 'bool':
            dt = 'bool'
        return self.reselect(st, self.newarr(st, t, shape, dt, mask),
                             node, aa, bb)

    def reselect(self, st, ref, node, *ops):
        """Results computed from the elements chosen by a mask stay tied to
        that mask."""
        sels = [x for x in ops if isinstance(x, SelObj)]
        if not sels:
            return ref
        o = st.heap[ref.loc]
        sel = sels[0].sel
        t = o.term
        f = self.ixfacts(o.shape, st)
        for x in ops:
            if x is None:
                continue
            if isinstance(x, SelObj):
                same = x.sel is sel or logic.equal(x.sel, sel, f) is None
            else:
                same = not x.shape
            if not same:
                t = self.ip.havoc(node, 'mixed selections')
        st.heap[ref.loc] = SelObj(t, o.shape, o.dtype, o.mask, sel)
        return ref

    def arith(self, op, a, b, node, st):
        if a.op == 'unbound' or b.op == 'unbound':
            return mk('unbound', 'operand')
        if isinstance(op, ast.Add):
            if a.op in ('list', 'tuple', 'concat') or \
                    b.op in ('list', 'tuple', 'concat'):
                return mk('concat', a, b)
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return T.div(a, b)
        if isinstance(op, ast.FloorDiv):
            return T.floordiv(a, b)
        if isinstance(op, ast.Mod):
            return T.mod(a, b)
        if isinstance(op, ast.Pow):
            return T.power(a, b)
        if isinstance(op, ast.BitAnd):
            if kind(a) == 'bool' or kind(b) == 'bool':
                return tand(truth(a), truth(b))
            return mk('fn', 'bitand', a, b)
        if isinstance(op, ast.BitOr):
            if kind(a) == 'bool' or kind(b) == 'bool':
                return tor(truth(a), truth(b))
            return mk('fn', 'bitor', a, b)
        if isinstance(op, ast.BitXor):
            if kind(a) == 'bool' and kind(b) == 'bool':
                return tor(tand(a, tnot(b)), tand(tnot(a), b))
            return mk('fn', 'bitxor', a, b)
        if isinstance(op, ast.LShift) and b.op == 'num':
            return mul(a, num(2 ** int(b.args[0])))
        if isinstance(op, ast.RShift) and b.op == 'num':
            return T.floordiv(a, num(2 ** int(b.args[0])))
        return self.ip.havoc(node, 'operator %s' % type(op).__name__)

    def unop(self, op, v, st, node):
        a = self.operand(v, st)
        t = a.term if a is not None else self.ip.term(v, st)
        if isinstance(op, ast.USub):
            r = neg(t)
        elif isinstance(op, ast.UAdd):
            r = t
        elif isinstance(op, ast.Invert):
            if kind(t) == 'bool' or (a is not None and a.dtype == 'bool'):
                r = tnot(truth(t))
            else:
                r = sub(neg(t), num(1))
        else:
            r = tnot(truth(t))
        if a is not None:
            return self.reselect(st, self.newarr(st, r, a.shape, a.dtype,
                                                 a.mask), node, a)
        return r

    def compare(self, op, a, b, st, node):
        ip = self.ip
        if isinstance(a, Choice):
            a = ip.refine(a, st)
        if isinstance(b, Choice):
            b = ip.refine(b, st)
        if isinstance(a, Choice):
            return ip.merge_values(
                a.cond, self.compare(op, a.a, b, st, node),
                self.compare(op, a.b, b, st, node))
        if isinstance(b, Choice):
            return ip.merge_values(
                b.cond, self.compare(op, a, b.a, st, node),
                self.compare(op, a, b.b, st, node))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b, st)
            return r if isinstance(op, ast.Is) else tnot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st, node)
            return r if isinstance(op, ast.In) else tnot(r)
        sets = self.const_sets(a, b, st)
        if sets is not None:
            x, y = set(sets[0]), set(sets[1])
            r = {ast.Eq: x == y, ast.NotEq: x != y, ast.LtE: x <= y,
                 ast.Lt: x < y, ast.GtE: x >= y, ast.Gt: x > y}.get(
                     type(op))
            if r is not None:
                return TRUE if r else FALSE
        aa, bb = self.operand(a, st), self.operand(b, st)
        if aa is not None or bb is not None:
            if a is NONE or b is NONE:
                return FALSE if isinstance(op, ast.Eq) else TRUE
            ta = aa.term if aa is not None else self.pt(a, st)
            tb = bb.term if bb is not None else self.pt(b, st)
            ta, tb, shape = self.align(aa, bb, ta, tb)
            t = self.rel(op, ta, tb)
            mask = None
            for x in (aa, bb):
                if x is not None and x.mask is not None:
                    mask = x.mask if mask is None else tor(mask, x.mask)
            return self.reselect(st, self.newarr(st, t, shape, 'bool', mask),
                                 node, aa, bb)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, st)
            return r if isinstance(op, ast.Eq) else tnot(r)
        return self.rel(op, ip.term(a, st), ip.term(b, st))

    def rel(self, op, a, b):
        if isinstance(op, ast.Eq):
            return T.eq(a, b)
        if isinstance(op, ast.NotEq):
            return tnot(T.eq(a, b))
        if isinstance(op, ast.Lt):
            return T.lt(a, b)
        if isinstance(op, ast.LtE):
            return T.le(a, b)
        if isinstance(op, ast.Gt):
            return T.lt(b, a)
        return T.le(b, a)

    def equal(self, a, b, st):
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return tand(*[self.equal(x, y, st)
                          for x, y in zip(a.items, b.items)])
        ta, tb = self.ip.term(a, st), self.ip.term(b, st)
        for x, y in ((ta, tb), (tb, ta)):
            if x.op == 'typeof':
                if y.op == 'ext':
                    return self.isinst(x.args[0],
                                       y.args[0].split('.')[-1])
            if x.op == 'dtype' and y.op in ('str', 'ext'):
                n = y.args[0].split('.')[-1]
                if len(x.args) > 1:
                    return mk('is', x, string(n))
        return T.eq(ta, tb)

    def identical(self, a, b, st):
        if a is NONE or b is NONE:
            o = b if a is NONE else a
            if o is NONE:
                return TRUE
            if not isinstance(o, Term):
                return FALSE
            if o.op in ('mcall', 'call', 'attr', 'item', 'sym', 'obj',
                        'ite', 'havoc', 'cfg', 'cell', 'eff', 'at'):
                if o.op == 'sym' and T.flag(o, 'notnone'):
                    return FALSE
                if o.op == 'ite':
                    return ite(o.args[0], self.identical(o.args[1], NONE,
                                                         st),
                               self.identical(o.args[2], NONE, st))
                if o.op == 'sym' and o.args[1] in ('int', 'num', 'str',
                                                   'bool'):
                    return FALSE
                return T.eq(o, NONE)
            return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a.loc == b.loc else FALSE
        return self.equal(a, b, st)

    def contains(self, a, b, st, node):
        ip = self.ip
        if isinstance(b, Term):
            if b.op == 'str' and isinstance(a, Term) and a.op == 'str':
                return TRUE if a.args[0] in b.args[0] else FALSE
            if isinstance(a, Term) and a.op == 'str' and b.op == 'cat':
                if any(p.op == 'str' and a.args[0] in p.args[0]
                       for p in b.args):
                    return TRUE
            if b.op == 'mcall' and b.args[1] == 'keys':
                b = b.args[0]
            return mk('in', ip.term(a, st), b)
        if isinstance(b, Ref) and isinstance(st.heap.get(b.loc), DictObj):
            o = st.heap[b.loc]
            k = ip.term(a, st)
            if k in o.items:
                return TRUE
            if k.op == 'str' and all(x.op == 'str' for x in o.items) and \
                    o.default is None:
                return FALSE
            return tor(*[T.eq(k, x) for x in o.items])
        if isinstance(b, Method) and b.name in ('keys',):
            return self.contains(a, b.obj, st, node)
        vals = self.concrete(b, st)
        if vals is not None:
            return tor(*[self.equal(a, x, st) for x in vals])
        if isinstance(b, Range):
            t = ip.term(a, st)
            if b.step is num(1):
                return tand(T.le(b.start, t), T.lt(t, b.stop))
        return mk('in', ip.term(a, st), ip.term(b, st))

    def logical(self, op, vs, st, node):
        ts = [self.operand(v, st) for v in vs]
        f = tand if op == 'and' else tor
        terms = [a.term if a is not None else truth(self.ip.term(v, st))
                 for a, v in zip(ts, vs)]
        shape = next((a.shape for a in ts if a is not None), None)
        if shape is None and all(a is None for a in ts):
            return f(*terms)
        return self.newarr(st, f(*terms), shape, 'bool')

    def isinst(self, x, name):
        if isinstance(x, Term):
            k = kind(x)
            if name in ('str', 'string'):
                if k == 'str':
                    return TRUE
                if k in ('int', 'num', 'bool') or x.op in (
                        'mcall', 'none', 'tuple', 'list', 'dict', 'eff',
                        'obj') or (x.op == 'call' and
                                   x.args[0] == 'gdal.Open') or \
                        (x.op == 'sym' and T.flag(x, 'notstr')):
                    return FALSE
            if name in ('int', 'float') and k == 'str':
                return FALSE
            if name == 'int' and k == 'int':
                return TRUE
            return mk('isinstance', x, name)
        return FALSE

    # -------------------------------------------------------- strings

    def str_of(self, v, st):
        if isinstance(v, Choice):
            return ite(v.cond, self.str_of(v.a, st), self.str_of(v.b, st))
        return T.tostr(self.ip.term(v, st))

    def format_spec(self, v, spec, st):
        t = self.ip.term(v, st)
        if spec.op == 'str' and spec.args[0] in ('', 's'):
            return T.tostr(t)
        if spec.op == 'str' and spec.args[0] == 'd' and kind(t) == 'int':
            return T.tostr(t)
        if t.op == 'num' and spec.op == 'str':
            try:
                v = t.args[0]
                v = int(v) if v.denominator == 1 and \
                    spec.args[0][-1:] in 'dxobc' else float(v)
                return string(format(v, spec.args[0]))
            except (ValueError, TypeError):
                pass
        return mk('tostr', mk('fmt', t, spec))

    def percent(self, fmt, b, st, node=None):
        if fmt.op != 'str':
            return mk('tostr', mk('percent', fmt, self.ip.term(b, st)))
        args = list(b.items) if isinstance(b, Tup) else [b]
        parts, pos, s = [], 0, fmt.args[0]
        single = isinstance(b, Tup) or isinstance(b, Term) and \
            b.op in ('num', 'str', 'true', 'false', 'none')
        for m in re.finditer(r'%(\(\w+\))?([-#0 +]*)(\d*)(?:\.(\d+))?'
                             r'([a-zA-Z%])', s):
            parts.append(string(s[pos:m.start()]))
            pos = m.end()
            if m.group(5) == '%':
                parts.append(string('%'))
                continue
            if m.group(1):
                v = self.getitem(args[0], string(m.group(1)[1:-1]), st, None)
            elif args:
                v = args.pop(0)
            else:
                v = mk('havoc', 'format', 0)
                if single:
                    self.ip.fails('TypeError', 'not enough values for %r' % s,
                                  st, node)
            if isinstance(v, Term) and v.op == 'str' and \
                    m.group(5) not in 'sra':
                self.ip.fails('TypeError', '%%%s is no format of a string'
                              % m.group(5), st, node)
            spec = (m.group(2) or '') + (m.group(3) or '') + \
                ('.' + m.group(4) if m.group(4) else '')
            if spec == '' and m.group(5) in 'sdi':
                parts.append(self.str_of(v, st))
            else:
                parts.append(self.format_spec(v, string(
                    spec + m.group(5)), st))
        parts.append(string(s[pos:]))
        if args and single and not re.search(r'%\(', s):
            self.ip.fails('TypeError', 'too many values for %r' % s, st,
                          node)
        return T.cat(*parts)

    def str_format(self, s, args, kwargs, st):
        parts, auto = [], 0
        try:
            fields = list(_string.Formatter().parse(s))
        except ValueError:
            return mk('tostr', mk('havoc', 'format', 0))
        for lit, field, spec, conv in fields:
            if lit:
                parts.append(string(lit))
            if field is None:
                continue
            m = re.match(r'([^.\[]*)(.*)', field)
            name, rest = m.group(1), m.group(2)
            if name == '':
                name = str(auto)
                auto += 1
            if name.isdigit():
                v = args[int(name)] if int(name) < len(args) else \
                    mk('unbound', name)
            else:
                v = kwargs.get(name, mk('unbound', name))
            for mm in re.finditer(r'\.(\w+)|\[(\w+)\]', rest):
                if mm.group(1):
                    v = self.ip.get_attr(v, mm.group(1), st, None, None)
                else:
                    k = mm.group(2)
                    v = self.getitem(v, num(int(k)) if k.isdigit()
                                     else string(k), st, None)
            if spec:
                parts.append(self.format_spec(v, string(spec), st))
            else:
                parts.append(self.str_of(v, st))
        return T.cat(*parts)

    def path_of(self, v, st):
        t = self.ip.term(v, st) if not isinstance(v, Term) else v
        if t.op == 'path':
            t = t.args[0]
        if t.op == 'ite':
            return ite(t.args[0], self.path_of(t.args[1], st),
                       self.path_of(t.args[2], st))
        return T.cat_path(t)

    # -------------------------------------------------------- sequences

    def length(self, v, st):
        ip = self.ip
        if isinstance(v, Choice):
            return ite(v.cond, self.length(v.a, st), self.length(v.b, st))
        if isinstance(v, Tup):
            return num(len(v.items))
        if isinstance(v, Range):
            if v.step is num(1):
                d = sub(v.stop, v.start)
            elif v.step.op == 'num' and v.step.args[0] < 0:
                d = T.ceil(T.div(sub(v.start, v.stop), neg(v.step)))
            else:
                d = T.ceil(T.div(sub(v.stop, v.start), v.step))
            if d.op == 'num':
                return num(max(0, d.args[0]))
            if self.nonneg(d, ip.base if not hasattr(st, 'pc') else st):
                return d
            return T.tmax(num(0), d)
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, Ref):
            o = st.heap.get(v.loc) or ip.base.heap.get(v.loc)
            if isinstance(o, ListObj):
                if o.distinct and len(o.segs) > 1:
                    return mk('len', ip.list_term(o, st))
                n = num(0)
                for s in o.segs:
                    n = add(n, self.seg_len(s, st))
                return n
            if isinstance(o, DictObj):
                return num(len(o.items))
            if isinstance(o, SelObj):
                return mk('nzcount', o.sel)
            if isinstance(o, ArrObj):
                if o.view is not None:
                    o = self.read_view(st, o)
                if o.shape:
                    return o.shape[0]
                return mk('len', ip.term(v, st))
        if isinstance(v, Term):
            if v.op in ('str', 'bytes'):
                return num(len(v.args[0]))
            if v.op in ('tuple', 'list', 'dict'):
                return num(len(v.args))
            if v.op == 'col':
                return mk('len', v.args[0])
            if v.op == 'B' and v.args[0] == 'seq' and len(v.args[1]) == 1 \
                    and v.args[3][1] is TRUE:
                n = v.args[3][0]
                n = n[0] if isinstance(n, tuple) else n
                return n
            if v.op == 'call' and v.args[0] in ARRAY1D:
                return mk('size', v)
            return mk('len', v)
        return mk('len', ip.term(v, st))

    def seg_len(self, s, st):
        if s[0] == 'e':
            return num(1)
        if s[0] == 'c':
            if s[3] is TRUE:
                n = num(1)
                if len(s[1]) == 1:
                    return T.tmax(num(0), s[2][0]) if not self.nonneg(
                        s[2][0], st) else s[2][0]
                body = num(1)
                for v, c in reversed(list(zip(s[1], s[2]))):
                    body = T.total(v, c, body)
                return body
            if not s[1]:
                return ite(s[3], num(1), num(0))
            body = ite(s[3], num(1), num(0))
            for v, c in reversed(list(zip(s[1], s[2]))):
                body = T.total(v, c, body)
            return body
        return mk('len', s[1])

    def concrete(self, v, st):
        ip = self.ip
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Range):
            if all(x.op == 'num' for x in (v.start, v.stop, v.step)):
                xs = range(int(v.start.args[0]), int(v.stop.args[0]),
                           int(v.step.args[0]))
                if len(xs) <= 4000:
                    return [num(x) for x in xs]
            return None
        if isinstance(v, Seq):
            if v.n.op == 'num' and v.n.args[0] <= 100:
                return [v.elem(num(k)) for k in range(int(v.n.args[0]))]
            return None
        if isinstance(v, Ref):
            o = st.heap.get(v.loc) or ip.base.heap.get(v.loc)
            if isinstance(o, ListObj):
                if o.known():
                    vals = o.values()
                    if o.distinct:
                        vals = self.dedup(vals, st)
                    return vals
                return None
            if isinstance(o, DictObj):
                return list(o.items)
            if isinstance(o, ArrObj) and not isinstance(o, SelObj) and \
                    o.shape and o.shape[0].op == 'num' and o.shape[0].args[0] <= 64 and \
                    o.view is None:
                return [self.getitem(v, num(k), st, None)
                        for k in range(int(o.shape[0].args[0]))]
            return None
        if isinstance(v, Term):
            if v.op == 'str':
                return [string(ch) for ch in v.args[0]]
            if v.op in ('tuple', 'list'):
                return list(v.args)
            if v.op == 'dict':
                return [kv.args[0] for kv in v.args]
        return None

    def dedup(self, vals, st):
        out, seen = [], set()
        for x in vals:
            t = self.ip.term(x, st)
            if t not in seen:
                seen.add(t)
                out.append(x)
        return out

    def iter_segments(self, v, st, node):
        """Split a list with several segments into iterables."""
        if isinstance(v, Ref):
            o = st.heap.get(v.loc) or self.ip.base.heap.get(v.loc)
            if isinstance(o, ListObj) and len(o.segs) > 1 and \
                    not o.distinct:
                out, run = [], []
                for s in o.segs:
                    if s[0] == 'e':
                        run.append(s[1])
                        continue
                    if run:
                        out.append(Tup(run))
                        run = []
                    out.append(self.seg_seq(s, st))
                if run:
                    out.append(Tup(run))
                return out
        return [v]

    def seg_seq(self, s, st):
        """Iterable for one 'c' or 't' segment."""
        if s[0] == 't':
            return self.as_seq(s[1], st, None)
        vars_, ns, guard, val = s[1:5]
        if not vars_:
            if guard is TRUE:
                return Tup([val])
            return Choice(guard, Tup([val]), Tup([]))
        if len(vars_) == 1 and guard is TRUE:
            v0 = vars_[0]
            return Seq(ns[0], lambda t: self.subst_value(val, {v0: t}, st))
        return GuardedSeq(vars_, ns, guard, val)

    def subst_value(self, v, mp, st):
        if isinstance(v, Term):
            return subst(v, mp)
        if isinstance(v, Tup):
            return Tup([self.subst_value(x, mp, st) for x in v.items])
        if isinstance(v, Choice):
            return self.ip.merge_values(
                subst(v.cond, mp), self.subst_value(v.a, mp, st),
                self.subst_value(v.b, mp, st))
        if isinstance(v, Range):
            return Range(*[subst(x, mp) for x in (v.start, v.stop, v.step)])
        if isinstance(v, Ref):
            o = st.heap.get(v.loc)
            n = self.subst_obj(o, mp, st)
            if n is o:
                return v
            return self.ip.alloc(st, n)
        if isinstance(v, Seq):
            return Seq(subst(v.n, mp), lambda t: self.subst_value(
                v.elem(t), mp, st), subst(v.key, mp) if v.key is not None
                else None)
        return v

    def subst_obj(self, o, mp, st):
        if isinstance(o, ArrObj):
            t = subst(o.term, mp)
            sh = tuple(subst(d, mp) for d in o.shape) if o.shape else o.shape
            m = subst(o.mask, mp) if o.mask is not None else None
            if t is o.term and sh == o.shape and m is o.mask:
                return o
            return ArrObj(t, sh, o.dtype, m, o.view)
        if isinstance(o, ListObj):
            segs, ch = [], False
            for s in o.segs:
                if s[0] == 'e':
                    n = ('e', self.subst_value(s[1], mp, st))
                    ch = ch or n[1] is not s[1]
                elif s[0] == 'c':
                    n = ('c', s[1], tuple(subst(x, mp) for x in s[2]),
                         subst(s[3], mp), self.subst_value(s[4], mp, st))
                    ch = ch or n[2] != s[2] or n[3] is not s[3] or \
                        n[4] is not s[4]
                else:
                    n = (s[0], subst(s[1], mp))
                    ch = ch or n[1] is not s[1]
                segs.append(n)
            return ListObj(segs, o.distinct) if ch else o
        if isinstance(o, DictObj):
            items, ch = {}, False
            for k, v in o.items.items():
                k2, v2 = subst(k, mp), self.subst_value(v, mp, st)
                ch = ch or k2 is not k or v2 is not v
                items[k2] = v2
            return DictObj(items, o.default) if ch else o
        if isinstance(o, InstObj):
            attrs, ch = {}, False
            for k, v in o.attrs.items():
                v2 = self.subst_value(v, mp, st)
                ch = ch or v2 is not v
                attrs[k] = v2
            return InstObj(o.cls, attrs) if ch else o
        return o

    def as_seq(self, v, st, node):
        ip = self.ip
        if isinstance(v, Seq):
            return v
        if isinstance(v, GuardedSeq):
            return v
        if isinstance(v, Range):
            n = self.length(v, st)
            return Seq(n, lambda t: add(v.start, mul(t, v.step)),
                       mk('range', v.start, v.stop, v.step))
        if isinstance(v, Tup):
            return self.tuple_seq(v.items, st)
        if isinstance(v, Ref):
            o = st.heap.get(v.loc) or ip.base.heap.get(v.loc)
            if isinstance(o, ListObj):
                if o.distinct and not (len(o.segs) == 1 and
                                       o.segs[0][0] == 't' and False):
                    return self.term_seq(ip.list_term(o, st))
                if len(o.segs) == 1:
                    s = o.segs[0]
                    if s[0] != 'e':
                        r = self.seg_seq(s, st)
                        if isinstance(r, Seq):
                            return r
                if o.known():
                    return self.tuple_seq(o.values(), st)
                return self.term_seq(ip.list_term(o, st))
            if isinstance(o, SelObj):
                return self.term_seq(ip.havoc(node, 'a selection as a list'))
            if isinstance(o, ArrObj):
                return Seq(self.length(v, st),
                           lambda t: self.getitem(v, t, st, node))
            if isinstance(o, DictObj):
                return self.tuple_seq(list(o.items), st)
            if isinstance(o, InstObj):
                m = ip.class_attr(o.cls, '__iter__', st)
                if m is not None:
                    return self.as_seq(ip.call(Bound(m, v), [], {}, st, None,
                                               node), st, node)
        if isinstance(v, Term):
            return self.term_seq(v)
        return self.term_seq(ip.term(v, st))

    def term_seq(self, v):
        if v.op == 'B' and v.args[0] == 'seq' and len(v.args[1]) == 1 and \
                v.args[3][1] is TRUE:
            n = v.args[3][0]
            return Seq(n[0] if isinstance(n, tuple) else n,
                       lambda t: item(v, t), v)
        if v.op == 'range':
            n = self.length(Range(*v.args), self.ip.base)
            return Seq(n, lambda t: add(v.args[0], mul(t, v.args[2])), v)
        if v.op == 'col':
            return Seq(mk('len', v.args[0]),
                       lambda t: mk('cell', v.args[0], t, v.args[1]), v)
        if v.op == 'call' and v.args[0] == 'numpy.unique':
            return Seq(mk('len', v), lambda t: item(v, t), v)
        return Seq(mk('len', v), lambda t: item(v, t), v)

    def tuple_seq(self, items, st):
        items = list(items)

        def el(t):
            if t.op == 'num':
                return items[int(t.args[0])]
            r = items[0]
            for k, x in enumerate(items[1:], 1):
                r = self.ip.merge_values(T.eq(t, num(k)), x, r)
            return r
        return Seq(num(len(items)), el)

    def list_segs(self, v, st, node):
        """Segments of any iterable."""
        ip = self.ip
        if isinstance(v, Choice):
            v = ip.refine(v, st)
        if isinstance(v, Choice):
            out = []
            for c, x in ((v.cond, v.a), (tnot(v.cond), v.b)):
                for s in self.list_segs(x, st, node):
                    if s[0] == 'e':
                        out.append(('c', (), (), c, s[1]))
                    elif s[0] == 'c':
                        out.append(('c', s[1], s[2], tand(c, s[3]), s[4]))
                    else:
                        out.append(('t', ite(c, s[1], mk('list'))))
            return out
        if isinstance(v, Ref):
            o = st.heap.get(v.loc) or ip.base.heap.get(v.loc)
            if isinstance(o, ListObj):
                if o.distinct:
                    return [('t', ip.list_term(o, st))] if not o.known() \
                        else [('e', x) for x in self.concrete(v, st)]
                return list(o.segs)
        vals = self.concrete(v, st)
        if vals is not None and len(vals) <= 80:
            return [('e', x) for x in vals]
        if isinstance(v, Term):
            if v.op == 'concat':
                out = []
                for x in v.args:
                    out.extend(self.list_segs(x, st, node))
                return out
            if v.op == 'B' and v.args[0] == 'seq':
                vs, inner = T.open_binder(v)
                inner = T.instantiate(v, vs)
                ns = inner[0] if isinstance(inner[0], tuple) else \
                    (inner[0],)
                return [('c', vs, ns, inner[1], inner[2])]
            if v.op == 'sym' and T.flag(v, 'listph'):
                return [('t', v)]
        if isinstance(v, Seq) and v.product is not None:
            vs, ns, els = [], [], []
            for q in v.product:
                t = fresh('u')
                vs.append(t)
                ns.append(q.n)
                els.append(q.elem(t))
            return [('c', tuple(vs), tuple(ns), TRUE, Tup(els))]
        if isinstance(v, GuardedSeq):
            return [('c', v.vars, v.ns, v.guard, v.val)]
        s = self.as_seq(v, st, node)
        t = fresh('u')
        return [('c', (t,), (s.n,), TRUE, s.elem(t))]

    def list_append(self, st, ref, v, node):
        o = st.heap[ref.loc]
        st.heap[ref.loc] = ListObj(o.segs + (('e', v),), o.distinct)

    def list_extend(self, st, ref, v, node):
        o = st.heap[ref.loc]
        st.heap[ref.loc] = ListObj(
            tuple(o.segs) + tuple(self.list_segs(v, st, node)), o.distinct)

    # -------------------------------------------------------- subscripts

    def norm_index(self, i, dim, st):
        if i.op == 'num':
            if i.args[0] < 0:
                return add(dim, i) if dim is not None else i
            return i
        if dim is None:
            return i
        # n - k with a constant k: counted from the end only if negative
        f = self.facts(st)
        if f.entails_ge(i):
            return i
        if f.entails_gt(neg(i)):
            return add(i, dim)
        return ite(T.lt(i, num(0)), add(i, dim), i)

    def slice_bounds(self, s, dim, st):
        """-> (start, length, step) of a slice over a dimension."""
        f = self.facts(st)

        def clip(x):
            if x.op == 'num' and x.args[0] < 0:
                x = add(dim, x)
            elif x.op != 'num' and not f.entails_ge(x):
                if f.entails_gt(neg(x)):
                    x = add(dim, x)
                else:
                    x = ite(T.lt(x, num(0)), add(dim, x), x)
            if x.op == 'num' and x.args[0] == 0:
                return x
            if not f.entails_ge(x) and x is not dim:
                x = T.tmax(num(0), x)
            if x is dim or f.entails_ge(sub(dim, x)):
                return x
            return T.tmin(x, dim)
        step = s.step if s.step is not NONE else num(1)
        if step.op == 'num' and step.args[0] < 0:
            if s.lo is NONE and s.hi is NONE:
                k = -step.args[0]
                n = dim if k == 1 else T.ceil(T.div(dim, num(k)))
                return sub(dim, num(1)), n, step
            lo = sub(dim, num(1)) if s.lo is NONE else s.lo
            if lo.op == 'num' and lo.args[0] < 0:
                lo = add(dim, lo)
            if s.hi is NONE and step is num(-1):
                return lo, add(lo, num(1)), step
            if s.hi is not NONE and step is num(-1):
                hi = s.hi
                if hi.op == 'num' and hi.args[0] < 0:
                    hi = add(dim, hi)
                return lo, T.tmax(num(0), sub(lo, hi)), step
            return None
        lo = num(0) if s.lo is NONE else clip(s.lo)
        hi = dim if s.hi is NONE else clip(s.hi)
        n = sub(hi, lo)
        if step is not num(1):
            n = T.ceil(T.div(n, step))
        if n.op == 'num':
            n = num(max(0, n.args[0]))
        elif not f.entails_ge(n):
            n = T.tmax(num(0), n)
        return lo, n, step

    def getitem(self, o, i, st, node):
        ip = self.ip
        if isinstance(o, Choice):
            return ip.lift(lambda v: self.getitem(v, i, st, node), o, st)
        if isinstance(i, Choice):
            return ip.lift(lambda j: self.getitem(o, j, st, node), i, st)
        a = self.operand(o, st)
        if a is not None:
            return self.arr_getitem(o, a, i, st, node)
        if isinstance(o, Tup):
            return self.seq_getitem(list(o.items), o, i, st, node)
        if isinstance(o, Ref):
            ob = st.heap.get(o.loc) or ip.base.heap.get(o.loc)
            if isinstance(ob, ListObj):
                if isinstance(i, SliceV) or not isinstance(i, Term):
                    return self.list_slice(ob, o, i, st, node)
                if ob.known():
                    return self.seq_getitem(ob.values(), o, i, st, node)
                return self.list_item(ob, o, i, st, node)
            if isinstance(ob, DictObj):
                k = ip.term(i, st)
                if k in ob.items:
                    return ob.items[k]
                if ob.default is not None:
                    d = ip.call(ob.default, [], {}, st, None, node)
                    if is_const(k) and all(is_const(x) for x in ob.items):
                        return d
                    r = d
                else:
                    if is_const(k) and all(is_const(x) for x in ob.items):
                        from .interp import Dead
                        ip.do_raise('KeyError', st, node, None)
                        raise Dead()
                    r = None
                for kk, vv in ob.items.items():
                    r = vv if r is None else ip.merge_values(
                        T.eq(k, kk), vv, r)
                return r if r is not None else ip.havoc(node, 'empty dict')
            if isinstance(ob, InstObj):
                m = ip.class_attr(ob.cls, '__getitem__', st)
                if m is not None:
                    return ip.call(Bound(m, o), [i], {}, st, None, node)
        if isinstance(o, Range):
            t = ip.term(i, st)
            if kind(t) in ('int', 'num', 'any') and not isinstance(
                    i, SliceV):
                return add(o.start, mul(self.norm_index(
                    t, self.length(o, st), st), o.step))
        if isinstance(o, Seq):
            if isinstance(i, Term):
                return o.elem(i)
        if isinstance(o, Term):
            return self.term_getitem(o, i, st, node)
        return mk('item', ip.term(o, st), ip.term(i, st))

    def grid(self, o, i, st):
        """numpy.ogrid[slices], numpy.mgrid[slices]"""
        parts = i.items if isinstance(i, Tup) else [i]
        out, dims = [], []
        for k, p in enumerate(parts):
            if not isinstance(p, SliceV) or p.hi is NONE:
                return None
            lo = num(0) if p.lo is NONE else p.lo
            step = num(1) if p.step is NONE else p.step
            if any(kind(x) != 'int' for x in (lo, p.hi, step)):
                return None
            dims.append(self.length(Range(lo, p.hi, step), st))
            out.append(add(lo, mul(IX[k], step)))
        for k, t in enumerate(out):
            sh = dims if o.args[0] == 'numpy.mgrid' else [
                d if j == k else num(1) for j, d in enumerate(dims)]
            out[k] = self.newarr(st, t, sh, 'int')
        return Tup(out) if isinstance(i, Tup) else out[0]

    def term_getitem(self, o, i, st, node):
        ip = self.ip
        if o.op == 'globals':
            if isinstance(i, Term) and i.op == 'str':
                v = ip.lookup_module_var(st, ip.mods[o.args[0]], i.args[0])
                if v is not None:
                    return v
                ip.fails('KeyError', 'there is no %s' % T.show(i, 3), st,
                         node)
                return mk('unbound', i.args[0])
            return self.globals_choice(o.args[0], i, st, node)
        if o.op == 'ext' and o.args[0] in ('numpy.ogrid', 'numpy.mgrid'):
            r = self.grid(o, i, st)
            if r is not None:
                return r
        if isinstance(i, SliceV):
            lo, hi = i.lo, i.hi
            if kind(o) == 'str' or o.op in ('item', 'sym', 'cfg', 'call',
                                            'mcall'):
                if all(x is NONE or x.op == 'num' for x in (lo, hi)) and \
                        i.step is NONE:
                    return T.strslice(o, None if lo is NONE else
                                      int(lo.args[0]), None if hi is NONE
                                      else int(hi.args[0]))
            if o.op in ('tuple', 'list'):
                return self.getitem(Tup(o.args), i, st, node)
            return mk('slice', o, *[ip.term(x, st) for x in
                                    (i.lo, i.hi, i.step)])
        if isinstance(i, Tup) or not isinstance(i, Term):
            return mk('item', o, ip.term(i, st))
        if o.op == 'nonzero':
            return mk('nzidx', o.args[0], i)
        if o.op == 'ogrid' or o.op == 'ext':
            return self.grid_item(o, i, st, node)
        if o.op in ('tuple', 'list') and i.op == 'num':
            k = int(i.args[0])
            if -len(o.args) <= k < len(o.args):
                return o.args[k]
        if o.op == 'str' and i.op == 'num':
            return string(o.args[0][int(i.args[0])])
        if kind(o) == 'str' and i.op == 'num':
            k = int(i.args[0])
            return T.strslice(o, k, k + 1 if k != -1 else None)
        if i.op == 'num' and i.args[0] < 0 and self.is_seqterm(o):
            i = add(self.length(o, st), i)
        return item(o, i)

    def is_seqterm(self, o):
        return o.op == 'B' and o.args[0] == 'seq' and o.args[3][1] is TRUE

    def globals_choice(self, module, i, st, node):
        """globals()[expr]: choice between the module's functions."""
        t = self.ip.term(i, st)
        f = self.ip._frame(st, self.ip.mods[module].frame)
        r = mk('unbound', 'global')
        for k, v in f.vars.items():
            if isinstance(v, Func):
                c = T.eq(t, string(k))
                r = self.ip.merge_values(c, v, r)
        return r

    def seq_getitem(self, vals, o, i, st, node):
        ip = self.ip
        if isinstance(i, SliceV):
            if all(x is NONE or x.op == 'num' for x in
                   (i.lo, i.hi, i.step)):
                s = slice(*[None if x is NONE else int(x.args[0])
                            for x in (i.lo, i.hi, i.step)])
                part = vals[s]
                if isinstance(o, Tup):
                    return Tup(part)
                return ip.alloc(st, ListObj([('e', x) for x in part]))
            # symbolic bounds
            sq = self.tuple_seq(vals, st)
            r = self.slice_bounds(i, num(len(vals)), st)
            if r is None:
                return ip.havoc(node, 'slice')
            lo, n, step = r
            t = fresh('u')
            return ip.alloc(st, ListObj([
                ('c', (t,), (n,), TRUE, sq.elem(add(lo, mul(t, step))))]))
        t = ip.term(i, st)
        if t.op == 'bool':
            t = num(1 if t.args[0] else 0)
        if t.op == 'num':
            k = int(t.args[0])
            if -len(vals) <= k < len(vals):
                return vals[k]
            ip.fails('IndexError', 'there is no item %s of %d'
                     % (k, len(vals)), st, node)
            return mk('unbound', 'index')
        if not vals:
            return ip.havoc(node, 'index of empty sequence')
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = ip.merge_values(T.eq(t, num(k)), vals[k], r)
        return r

    def list_item(self, ob, o, i, st, node):
        ip = self.ip
        if len(ob.segs) == 1 and not ob.distinct:
            s = ob.segs[0]
            if s[0] == 'c' and len(s[1]) == 1 and s[3] is TRUE:
                i2 = self.norm_index(i, s[2][0], st)
                return self.subst_value(s[4], {s[1][0]: i2}, st)
            if s[0] == 't':
                return item(s[1], i)
        if i.op == 'num' and i.args[0] >= 0 and not ob.distinct:
            k = int(i.args[0])
            if all(s[0] == 'e' for s in ob.segs[:k + 1]) and \
                    k < len(ob.segs):
                return ob.segs[k][1]
        if i.op == 'num' and i.args[0] == -1 and ob.segs and \
                ob.segs[-1][0] == 'e':
            return ob.segs[-1][1]
        return item(ip.list_term(ob, st), i)

    def list_slice(self, ob, o, i, st, node):
        ip = self.ip
        if isinstance(i, SliceV):
            if i.lo is NONE and i.hi is NONE and i.step is NONE:
                return ip.alloc(st, ListObj(ob.segs, ob.distinct))
            if ob.known():
                return self.seq_getitem(ob.values(), o, i, st, node)
            r = self.slice_bounds(i, self.length(o, st), st)
            if r is None:
                return ip.havoc(node, 'slice')
            lo, n, step = r
            t = fresh('u')
            j = add(lo, mul(t, step))
            return ip.alloc(st, ListObj([
                ('c', (t,), (n,), TRUE,
                 self.list_item(ob, o, j, st, node))]))
        return mk('item', ip.list_term(ob, st), ip.term(i, st))

    # arrays ----------------------------------------------------------

    def split_index(self, a, i, st):
        """Normalise an index into a list of per-dimension entries:
        ('i', term) | ('s', lo, n, step) | ('new',) | ('m', cond) |
        ('f', ArrObj) | None when not understood."""
        items = list(i.items) if isinstance(i, Tup) else [i]
        nd = ndim_of(a)
        flat = []
        for x in items:
            if isinstance(x, Tup) and len(items) == 1:
                flat.extend(x.items)
            else:
                flat.append(x)
        used = 0
        for x in flat:
            if x is NONE or (isinstance(x, Term) and x.op == 'ellipsis'):
                continue
            m = self.mask_of(x, st)
            used += len(m[1]) if m is not None and m[1] else 1
        out, dim = [], 0
        for x in flat:
            if isinstance(x, Term) and x.op == 'ellipsis':
                for _ in range(nd - used):
                    out.append(('s', num(0), self.dim(a, dim), num(1)))
                    dim += 1
                continue
            if x is NONE:
                out.append(('new',))
                continue
            m = self.mask_of(x, st)
            if m is not None:
                out.append(('m', m[0]))
                dim += len(m[1]) if m[1] else nd
                continue
            if isinstance(x, SliceV):
                if x.lo is NONE and x.hi is NONE and x.step is NONE:
                    out.append(('s', num(0), self.dim(a, dim), num(1)))
                else:
                    b = self.slice_bounds(x, self.dim(a, dim), st)
                    if b is None:
                        return None
                    out.append(('s',) + b)
                dim += 1
                continue
            f = self.arr_of(x, st)
            if f is not None:
                out.append(('f', f))
                dim += 1
                continue
            t = self.ip.term(x, st)
            out.append(('i', self.norm_index(T.trunc(t) if kind(t) == 'num'
                                             else t, self.dim(a, dim), st)))
            dim += 1
        while dim < nd:
            out.append(('s', num(0), self.dim(a, dim), num(1)))
            dim += 1
        return out

    def dim(self, a, k):
        if a.shape is not None and k < len(a.shape):
            return a.shape[k]
        return mk('shape', self.arrval(a), num(k))

    def mask_of(self, x, st):
        """(condition, shape) when x selects by a condition."""
        if isinstance(x, Term):
            if x.op == 'nonzero':
                return x.args[0], ()
            if x is TRUE or x is FALSE:
                return x, ()
            return None
        if isinstance(x, Ref):
            o = self.ip.arr(st, x)
            if o is not None and (o.dtype == 'bool' or
                                  kind(o.term) == 'bool'):
                return o.term, o.shape or ()
        if isinstance(x, Tup) and len(x.items) and all(
                isinstance(y, Term) and y.op == 'nzidx' for y in x.items):
            return x.items[0].args[0], ()
        return None

    def short_selection(self, a, c, st):
        """The chosen elements of a short vector, when they are known."""
        if a.shape is None or len(a.shape) != 1 or a.mask is not None:
            return None
        n = a.shape[0]
        if n.op != 'num' or n.args[0] > 64:
            return None
        ks = [num(k) for k in range(int(n.args[0]))]
        cs = [truth(at(c, [k])) for k in ks]
        if not all(x.op == 'bool' for x in cs):
            return None
        o = self.list_arr(ListObj([('e', at(a.term, [k])) for k, x in zip(
            ks, cs) if x.args[0]]), None, st)
        return self.newarr(st, o.term, o.shape, a.dtype)

    def arr_getitem(self, o, a, i, st, node):
        if isinstance(a, SelObj):
            return self.ip.havoc(node, 'item of a selection')
        if isinstance(i, Tup) and i.items and all(
                isinstance(y, Term) and y.op == 'nzidx' for y in i.items) \
                and len({y.args[0] for y in i.items}) == 1:
            i = mk('nonzero', i.items[0].args[0])
        if isinstance(i, Tup) and not i.items:
            return o
        parts = self.split_index(a, i, st)
        if parts is None:
            return self.ip.havoc(node, 'array index')
        if any(p[0] == 'm' for p in parts):
            if len([p for p in parts if p[0] == 'm']) == 1 and \
                    all(p[0] in ('m', 's') for p in parts):
                c = next(p[1] for p in parts if p[0] == 'm')
                if len(parts) == 1:
                    r = self.short_selection(a, c, st)
                    if r is not None:
                        return r
                r = self.newarr(st, a.term, a.shape, a.dtype, a.mask)
                st.heap[r.loc] = SelObj(a.term, a.shape, a.dtype, a.mask, c)
                return r
            return self.ip.havoc(node, 'mask index')
        idx, shape = [], []
        fancy = [p for p in parts if p[0] == 'f']
        fdone = False
        for p in parts:
            if p[0] == 'i':
                idx.append(p[1])
            elif p[0] == 's':
                idx.append(add(p[1], mul(p[3], IX[len(shape)])))
                shape.append(p[2])
            elif p[0] == 'new':
                shape.append(num(1))
            elif p[0] == 'f':
                fa = p[1]
                fnd = ndim_of(fa)
                if not fdone:
                    fpos = len(shape)
                    fdone = True
                    for k in range(fnd):
                        shape.append(self.dim(fa, k))
                ft = subst(fa.term, {IX[k]: IX[fpos + k]
                                     for k in range(fnd)})
                d = self.dim(a, len(idx))
                idx.append(self.norm_index(
                    T.trunc(ft) if kind(ft) == 'num' else ft, d, st)
                    if not self.fancy_ok(ft) else ft)
        if not shape:
            return at(a.term, idx)
        ident = not fancy and all(p[0] == 's' and p[1] is num(0) and
                                  p[3] is num(1) for p in parts)
        if ident and isinstance(o, Ref) and all(
                p[2] is self.dim(a, k) for k, p in enumerate(parts)):
            return o               # a full slice is the same storage
        basic = not fancy and isinstance(o, Ref) and all(
            p[0] in ('s', 'i') for p in parts) and all(
            p[0] == 'i' or p[3].op == 'num' and abs(p[3].args[0]) == 1
            for p in parts)
        if basic and a.__class__ is ArrObj:
            return self.ip.alloc(st, ArrObj(
                None, tuple(shape), a.dtype, None,
                (o.loc, tuple(idx), tuple(shape))))
        return self.newarr(st, at(a.term, idx), shape, a.dtype,
                           at(a.mask, idx) if a.mask is not None else None)

    def fancy_ok(self, t):
        return True

    def store(self, o, i, v, st, node):
        ip = self.ip
        if isinstance(o, Choice):
            o = ip.refine(o, st)
        if isinstance(o, Choice):
            c = o.cond
            a, b = st.copy(), st.copy()
            a.pc = st.pc + (c,)
            b.pc = st.pc + (tnot(c),)
            self.store(o.a, i, v, a, node)
            self.store(o.b, i, v, b, node)
            pc = st.pc
            m = ip.merge_states(c, a, b)
            st.heap, st.pc = m.heap, pc
            return
        if isinstance(o, Ref):
            ob = st.heap.get(o.loc)
            if ob is None:
                ob = ip.base.heap.get(o.loc)
                if ob is not None:
                    st.heap[o.loc] = ob
            if isinstance(ob, ArrObj):
                self.arr_store(o, ob, i, v, st, node)
                return
            if isinstance(ob, DictObj):
                items = dict(ob.items)
                items[ip.term(i, st)] = v
                st.heap[o.loc] = DictObj(items, ob.default)
                return
            if isinstance(ob, ListObj):
                t = ip.term(i, st) if not isinstance(i, SliceV) else None
                if t is None:
                    if i.lo is NONE and i.hi is NONE and i.step is NONE:
                        st.heap[o.loc] = ListObj(
                            self.list_segs(v, st, node))
                        return
                    ip.note(node, 'list slice store')
                    st.heap[o.loc] = ListObj([('t', ip.havoc(
                        node, 'list slice store'))])
                    return
                if ob.known() and t.op == 'num':
                    segs = list(ob.segs)
                    k = int(t.args[0])
                    if -len(segs) <= k < len(segs):
                        segs[k] = ('e', v)
                        st.heap[o.loc] = ListObj(segs)
                        return
                if ob.known():
                    segs = []
                    for k, s in enumerate(ob.segs):
                        segs.append(('e', ip.merge_values(
                            T.eq(t, num(k)), v, s[1])))
                    st.heap[o.loc] = ListObj(segs)
                    return
                if len(ob.segs) == 1 and ob.segs[0][0] == 'c' and \
                        len(ob.segs[0][1]) == 1 and \
                        ob.segs[0][3] is TRUE:
                    s = ob.segs[0]
                    j = self.norm_index(t, s[2][0], st)
                    nv = ip.merge_values(T.eq(s[1][0], j), v, s[4])
                    st.heap[o.loc] = ListObj([(
                        'c', s[1], s[2], TRUE, nv)])
                    return
                st.heap[o.loc] = ListObj([('t', ip.havoc(
                    node, 'list store'))])
                return
            if isinstance(ob, InstObj):
                m = ip.class_attr(ob.cls, '__setitem__', st)
                if m is not None:
                    ip.call(Bound(m, o), [i, v], {}, st, None, node)
                    return
        if isinstance(o, Term) and o.op != 'eff':
            ip.note(node, 'store into a value of unknown kind')
        ip.event('$setitem', [ip.term(o, st), ip.term(i, st) if not
                              isinstance(i, SliceV) else ip.term(i, st), v],
                 {}, st, node, recv=o)

    def value_for_store(self, v, shape, st):
        """Pointwise term of v, broadcast to an array of `shape`."""
        a = self.operand(v, st)
        if a is None and self.is_listlike(v, st):
            a = self.arr_of(v, st)
        if a is None:
            return self.pt(v, st)
        t = a.term
        if a.shape is not None and shape is not None and \
                len(a.shape) < len(shape):
            d = len(shape) - len(a.shape)
            t = subst(t, {IX[k]: IX[k + d] for k in range(len(a.shape))})
        elif a.shape is not None and shape is not None and \
                len(a.shape) > len(shape):
            d = len(a.shape) - len(shape)
            t = subst(t, {IX[k + d]: IX[k] for k in range(len(shape))})
        return t

    def arr_store(self, o, ob, i, v, st, node):
        self.arr_store_in(o, ob, i, v, st, node)
        if o.loc in self.aliases:
            self.shared_store(o, st, node)

    def arr_store_in(self, o, ob, i, v, st, node):
        ip = self.ip
        a = ob if ob.view is None else self.read_view(st, ob)
        if isinstance(i, Tup) and i.items and all(
                isinstance(y, Term) and y.op == 'nzidx' for y in i.items) \
                and len({y.args[0] for y in i.items}) == 1:
            i = mk('nonzero', i.items[0].args[0])
        parts = self.split_index(a, i, st) if not (
            isinstance(i, Tup) and not i.items) else []
        if parts is None:
            self._put(st, o, ob, mk('havoc', 'store', ip.newloc()), a)
            return
        if any(p[0] == 'm' for p in parts):
            conds = []
            ok = True
            c = None
            for k, p in enumerate(parts):
                if p[0] == 'm':
                    c = p[1]
                elif p[0] != 's' or p[1] is not num(0):
                    ok = False
            va = self.operand(v, st)
            if va is not None and isinstance(va, SelObj):
                if va.sel is not c:
                    if logic.equal(va.sel, c, self.ixfacts(a.shape, st)) \
                            is not None:
                        ok = False
                val = va.term
            elif va is not None:
                # a whole array stored through a mask is element-wise only
                # for 0-d data
                val = va.term if not va.shape else None
                ok = ok and val is not None
            else:
                val = self.pt(v, st)
            if not ok:
                val = ip.havoc(node, 'mask store')
            new = ite(c, self.cast(a.dtype, val), a.term)
            mask = ite(c, FALSE, a.mask) if a.mask is not None else None
            self._put(st, o, ob, self.simp(new, a.shape, st), a, mask)
            return
        conds, back, kept, shape = [], {}, 0, []
        fancy = None
        nd = ndim_of(a)
        dim = 0
        fan = []
        for p in parts:
            if p[0] == 'new':
                kept += 1
                shape.append(num(1))
                continue
            if p[0] == 'i':
                conds.append(T.eq(IX[dim], p[1]))
            elif p[0] == 's':
                lo, n, step = p[1:]
                if step is num(1):
                    if not (lo is num(0)):
                        conds.append(T.le(lo, IX[dim]))
                    if n is not self.dim(a, dim):
                        conds.append(T.lt(IX[dim], add(lo, n)))
                    back[IX[kept]] = sub(IX[dim], lo)
                elif step is num(-1):
                    conds.append(T.le(IX[dim], lo))
                    conds.append(T.lt(sub(lo, IX[dim]), n))
                    back[IX[kept]] = sub(lo, IX[dim])
                else:
                    q = T.div(sub(IX[dim], lo), step)
                    conds.append(T.le(lo, IX[dim]))
                    conds.append(T.eq(T.mod(sub(IX[dim], lo), step),
                                      num(0)))
                    conds.append(T.lt(T.floor(q), n))
                    back[IX[kept]] = T.floor(q)
                kept += 1
                shape.append(n)
            elif p[0] == 'f':
                fan.append((dim, p[1], kept))
                if len(fan) == 1:
                    kept += ndim_of(p[1])
                    shape.extend(self.dim(p[1], k)
                                 for k in range(ndim_of(p[1])))
            dim += 1
        val = self.value_for_store(v, shape, st)
        val = self.cast(a.dtype, val)
        if not fan:
            new = ite(tand(*conds), subst(val, back), a.term)
        else:
            qs = []
            for _, fa, _ in fan[:1]:
                qs = [fresh('q') for _ in range(ndim_of(fa))]
            fpos = fan[0][2]
            ns = tuple(self.dim(fan[0][1], k) for k in range(len(qs)))
            g = list(conds)
            for d, fa, _ in fan:
                ft = subst(fa.term, {IX[k]: q for k, q in enumerate(qs)})
                g.append(T.eq(IX[d], ft))
            back2 = dict(back)
            for k, q in enumerate(qs):
                back2[IX[fpos + k]] = q
            w = subst(val, back2)
            if len(qs) == 1:
                from .loops import last_write
                new = last_write(qs[0], ns[0], tand(*g), w, a.term,
                                 self.ixfacts(a.shape, st))
            else:
                new = ip.havoc(node, 'fancy store')
        mask = None
        if a.mask is not None:
            mask = ite(tand(*conds), FALSE, a.mask)
        self._put(st, o, ob, self.simp(new, a.shape, st), a, mask)

    def _put(self, st, ref, ob, term, a, mask=None):
        if ob.view is not None:
            self._write_view(st, ob, term)
            return
        st.heap[ref.loc] = ArrObj(term, a.shape, a.dtype, mask
                                  if mask is not None else a.mask)

    def reshape(self, st, ref, shape, node, order='C'):
        """Reshape to known dimensions: via the flat index."""
        a = self.operand(ref, st) or self.arr_of(ref, st)
        if isinstance(shape, Tup):
            dims = [self.ip.term(x, st) for x in shape.items]
        elif isinstance(shape, Ref):
            dims = [self.ip.term(x, st)
                    for x in (self.concrete(shape, st) or [])]
        else:
            dims = [self.ip.term(shape, st)]
        if a is None or a.shape is None or not dims:
            return self.opaque_array(st, mk(
                'call', 'numpy.reshape', self.ip.term(ref, st), *dims),
                tuple(dims))
        total = num(1)
        for d in a.shape:
            total = mul(total, d)
        if any(d is num(-1) for d in dims):
            rest = num(1)
            for d in dims:
                if d is not num(-1):
                    rest = mul(rest, d)
            q = T.div(total, rest)
            if q.op == 'poly' and any(e < 0 for m, _ in q.args
                                      for _, e in m):
                q = T.floor(q)
            dims = [q if d is num(-1) else d for d in dims]
        # along an axis of one cell there is only the first
        ix = [num(0) if d is num(1) else x for d, x in zip(dims, IX)]
        if order == 'F':
            flat = num(0)
            for k in range(len(dims) - 1, -1, -1):
                flat = add(mul(flat, dims[k]), ix[k])
            idx = self.unravel(flat, a.shape, st, dims, 'F')
        else:
            flat = num(0)
            for k in range(len(dims)):
                flat = add(mul(flat, dims[k]), ix[k])
            idx = self.unravel(flat, a.shape, st, dims, 'C')
        return self.newarr(st, self.simp(at(a.term, idx), dims, st), dims,
                           a.dtype, at(a.mask, idx)
                           if a.mask is not None else None)

    def unravel(self, flat, shape, st, newshape, order):
        if len(shape) == 1:
            return [flat]
        f = self.ixfacts(newshape, st)
        out = []
        rest = flat
        dims = list(shape)
        if order == 'C':
            for d in reversed(dims[1:]):
                q = self.divide(rest, d, f)
                out.append(sub(rest, mul(q, d)))
                rest = q
            out.append(rest)
            return list(reversed(out))
        for d in dims[:-1]:
            q = self.divide(rest, d, f)
            out.append(sub(rest, mul(q, d)))
            rest = q
        out.append(rest)
        return out

    def divide(self, x, d, f):
        """floor(x / d), recognising x = a*d + b with 0 <= b < d."""
        p = T.to_poly(x)
        whole, rest = num(0), num(0)
        for m, c in p.items():
            t = T.from_poly({m: c})
            q = T.div(t, d)
            if d.op == 'num':
                ok = kind(q) == 'int'
            else:
                ok = not any(e < 0 for mm in T.to_poly(q) for _, e in mm)
            if ok:
                whole = add(whole, q)
            else:
                rest = add(rest, t)
        if f.entails_ge(rest) and f.entails_gt(sub(d, rest)):
            return whole
        return T.floordiv(x, d)

    # -------------------------------------------------------- attributes

    def attr(self, o, name, st, node):
        ip = self.ip
        if isinstance(o, Term):
            if self.scripted is not None and is_comm(o) and \
                    name in self.scripted.attrs:
                return self.scripted.attrs[name]
            if o.op == 'ext':
                return self.ext_attr(o.args[0], name)
            if self.arraylike(o) or o.op == 'col':
                r = self.arr_attr(o, self.arr_of(o, st), name, st, node)
                if r is not None:
                    return r
                if name in ARRAY_METHODS:
                    return Method(o, name)
            if o.op == 'ite':
                return ite(o.args[0],
                           self._attr_term(o.args[1], name, st, node),
                           self._attr_term(o.args[2], name, st, node))
            if kind(o) == 'str' and name in STR_METHODS:
                return Method(o, name)
            if o.op == 'row':
                return mk('cell', o.args[0], o.args[1], string(name))
            if o.op == 'table':
                if name in TABLE_METHODS:
                    return Method(o, name)
                return mk('col', o, string(name))
            if o.op == 'col' and name in ('values', 'array'):
                return o
            if o.op == 'path':
                if name == 'name':
                    return T.basename(o.args[0])
                if name == 'parent':
                    return mk('path', T.dirname(o.args[0]))
                if name == 'stem':
                    return T.splitext(T.basename(o.args[0]))[0]
                if name == 'suffix':
                    return T.splitext(o.args[0])[1]
            if name == 'dtype':
                return mk('dtype', 'raster', o)
            if name in ('size',) and o.op in ('call',):
                return mk('size', o)
            if name in ('XSize', 'YSize') and o.op == 'mcall' and \
                    o.args[1] == 'GetRasterBand':
                return mk('attr', o.args[0], 'Raster' + name)
            return mk('attr', o, name)
        if isinstance(o, Ref):
            ob = st.heap.get(o.loc) or ip.base.heap.get(o.loc)
            if isinstance(ob, ArrObj):
                a = self.ip.arr(st, o)
                r = self.arr_attr(o, a, name, st, node)
                if r is not None:
                    return r
        if isinstance(o, Range):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
        if isinstance(o, Method):
            if name == '__name__':
                return string(o.name)
        return Method(o, name)

    def _attr_term(self, o, name, st, node):
        r = self.attr(o, name, st, node)
        return r if isinstance(r, Term) else self.ip.term(r, st)

    def arr_attr(self, o, a, name, st, node):
        if a is None:
            return None
        if name == 'shape':
            if isinstance(a, SelObj):
                return Tup([mk('nzcount', a.sel)])
            nd = ndim_of(a)
            return Tup([self.dim(a, k) for k in range(nd)])
        if name == 'size':
            if isinstance(a, SelObj):
                return mk('nzcount', a.sel)
            n = num(1)
            for k in range(ndim_of(a)):
                n = mul(n, self.dim(a, k))
            return n
        if name == 'ndim':
            return num(ndim_of(a)) if a.shape is not None else \
                mk('attr', self.ip.term(o, st), 'ndim')
        if name == 'T':
            return self.share(self.transpose(o, st), o, 'part', st)
        if name == 'dtype':
            if a.dtype == 'raster':
                v = self.arrval(a)
                return mk('dtype', 'raster', v)
            return mk('dtype', a.dtype or 'float')
        if name == 'data' and a.mask is not None:
            return self.share(self.newarr(st, a.term, a.shape, a.dtype), o,
                              'data', st)
        if name == 'mask':
            return self.share(self.newarr(
                st, a.mask if a.mask is not None else FALSE, a.shape,
                'bool'), o, 'mask', st)
        if name == 'flat':
            return o
        return None

    def ext_attr(self, base, name):
        if base == 'mpi4py.MPI' and name == 'COMM_WORLD':
            return COMM
        full = self.canon(base + '.' + name)
        if full in EXT_CONST:
            return EXT_CONST[full]
        return mk('ext', full)

    # -------------------------------------------------------- with

    def enter(self, v, st, node):
        if isinstance(v, Term) and v.op in ('eff', 'call', 'mcall'):
            return v
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), InstObj):
            m = self.ip.class_attr(st.heap[v.loc].cls, '__enter__', st)
            if m is not None:
                return self.ip.call(Bound(m, v), [], {}, st, None, node)
        return v

    CLOSES = ('netCDF4.Dataset', 'builtins.open', 'io.open')

    def leave(self, v, st, node):
        if isinstance(v, Term):
            if v.op == 'eff' and v.args[0] in self.CLOSES:
                ev = self.ip.event('.close', [], {}, st, node, recv=v)
                ev.terms = [v]
                return
            self.ip.event('$exit', [v], {}, st, node, recv=v)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), InstObj):
            m = self.ip.class_attr(st.heap[v.loc].cls, '__exit__', st)
            if m is not None:
                self.ip.call(Bound(m, v), [NONE, NONE, NONE], {}, st, None,
                             node)

    # -------------------------------------------------------- calls

    def call(self, f, args, kwargs, st, cx, node):
        from . import library
        return library.call(self, f, args, kwargs, st, cx, node)

    def method(self, o, name, args, kwargs, st, cx, node):
        from . import library
        r = library.method(self, o, name, args, kwargs, st, cx, node)
        if name in SHARING:
            self.share(r, o, 'part', st)
        return r

    # -------------------------------------------------------- sharing

    def share(self, r, o, how, st):
        """`r` has the memory of array `o`."""
        if isinstance(r, Ref) and isinstance(o, Ref) and r.loc != o.loc and \
                isinstance(st.heap.get(o.loc), ArrObj) and \
                isinstance(st.heap.get(r.loc), ArrObj) and \
                st.heap[r.loc].view is None:
            self.aliases[r.loc] = (o.loc, how)
        return r

    def shared_store(self, ref, st, node):
        """After a store into `ref`: what it shares memory with changes."""
        seen = set()
        loc = ref.loc
        while loc in self.aliases and loc not in seen:
            seen.add(loc)
            base, how = self.aliases[loc]
            b, x = st.heap.get(base), st.heap.get(loc)
            if not isinstance(b, ArrObj):
                return
            if how == 'mask' and b.view is None:
                st.heap[base] = ArrObj(b.term, b.shape, b.dtype,
                                       T.truth(x.term))
            elif how == 'data' and b.view is None:
                st.heap[base] = ArrObj(x.term, b.shape, b.dtype, b.mask)
            else:
                self.write_full(st, Ref(base), mk(
                    'havoc', 'store through another array',
                    self.ip.newloc()), node)
            loc = base

    def transpose(self, o, st, axes=None):
        a = self.operand(o, st)
        if a is None:
            a = self.arr_of(o, st)
        if a is None:
            return mk('call', 'numpy.transpose', self.ip.term(o, st))
        nd = ndim_of(a)
        perm = axes or list(reversed(range(nd)))
        # result[i...] = a[j...] with j[perm[k]] = i[k]
        idx = [None] * nd
        for k, p in enumerate(perm):
            idx[p] = IX[k]
        shape = [self.dim(a, p) for p in perm]
        return self.newarr(st, at(a.term, idx), shape, a.dtype,
                           at(a.mask, idx) if a.mask is not None else None)

    def grid_item(self, o, i, st, node):
        """np.ogrid[...] / np.mgrid[...]."""
        name = o.args[0]
        if name in ('numpy.ogrid', 'numpy.mgrid'):
            items = i.items if isinstance(i, Tup) else [i]
            dims, outs = [], []
            for s in items:
                if not isinstance(s, SliceV):
                    return self.ip.havoc(node, 'grid')
                lo = num(0) if s.lo is NONE else s.lo
                st_ = num(1) if s.step is NONE else s.step
                dims.append((lo, self.length(Range(lo, s.hi, st_), st), st_))
            for k, (lo, n, step) in enumerate(dims):
                shape = [d[1] if (name == 'numpy.mgrid' or j == k) else
                         num(1) for j, d in enumerate(dims)]
                outs.append(self.newarr(
                    st, add(lo, mul(IX[k], step)), shape, 'int'))
            if len(outs) == 1:
                return outs[0]
            return Tup(outs)
        if name == 'os.environ':
            return mk('call', 'os.environ', i)
        return mk('item', o, self.ip.term(i, st))


class SelObj(ArrObj):
    """Elements of an array selected by a condition."""
    __slots__ = ('sel',)

    def __init__(self, term, shape, dtype, mask, sel):
        ArrObj.__init__(self, term, shape, dtype, mask)
        self.sel = sel


class GuardedSeq(Value):
    """Comprehension over several variables or with a filter."""
    __slots__ = ('vars', 'ns', 'guard', 'val', 'product')

    def __init__(self, vars, ns, guard, val):
        self.vars, self.ns, self.guard, self.val = vars, ns, guard, val
        self.product = None


COMM = T.sym('COMM_WORLD', 'any', notnone=True)


def is_comm(o):
    return o is COMM or (isinstance(o, Term) and o.op == 'sym' and
                         bool(T.flag(o, 'comm')))

OPNAMES = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__',
           ast.Div: '__truediv__', ast.Mod: '__mod__'}

SHARING = {'reshape', 'ravel', 'transpose', 'swapaxes', 'squeeze', 'view',
           'diagonal'}
STR_METHODS = {'format', 'split', 'join', 'lower', 'upper', 'strip',
               'lstrip', 'rstrip', 'find', 'replace', 'startswith',
               'endswith', 'rsplit', 'rfind', 'index', 'count', 'zfill',
               'encode', 'title', 'isdigit', 'partition', 'rpartition',
               'splitlines', 'capitalize', 'ljust', 'rjust', 'removesuffix',
               'removeprefix'}

TABLE_METHODS = {'iterrows', 'itertuples', 'to_dict', 'set_index', 'loc',
                 'iloc', 'columns', 'values', 'head', 'apply', 'items',
                 'index', 'shape', 'dropna', 'to_numpy', 'copy', 'rename'}

ARRAY_METHODS = {'astype', 'copy', 'flatten', 'ravel', 'reshape', 'sum',
                 'mean', 'max', 'min', 'fill', 'filled', 'transpose',
                 'nonzero', 'any', 'all', 'tolist', 'item', 'squeeze',
                 'clip', 'round', 'dot', 'view', 'swapaxes', 'argmax',
                 'argmin', 'prod', 'std', 'take', 'put', 'sort', 'cumsum',
                 'compressed', 'byteswap', 'tobytes', 'repeat'}

ARRAY1D = {'numpy.diff', 'numpy.unique', 'numpy.sort', 'numpy.intersect1d',
           'numpy.compress', 'numpy.cumsum', 'numpy.append'}

EXT_CONST = {
    'numpy.nan': T.NAN, 'numpy.NaN': T.NAN, 'numpy.NAN': T.NAN,
    'math.nan': T.NAN, 'numpy.inf': T.INF, 'math.inf': T.INF,
    'numpy.newaxis': NONE, 'math.pi': mk('fn', 'pi'),
    'numpy.pi': mk('fn', 'pi'), 'os.sep': string('/'),
    'os.path.sep': string('/'), 'os.pardir': string('..'),
    'os.curdir': string('.'), 'math.e': mk('fn', 'e'),
}

CANON = {
    'numpy.round': 'numpy.around', 'numpy.round_': 'numpy.around',
    'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs',
    'math.fabs': 'numpy.abs', 'numpy.amax': 'numpy.max',
    'numpy.amin': 'numpy.min', 'numpy.true_divide': 'numpy.divide',
    'numpy.remainder': 'numpy.mod', 'numpy.asanyarray': 'numpy.asarray',
    'gdal_array.BandReadAsArray': 'gdal.BandReadAsArray',
    'pandas.io.parsers.read_csv': 'pandas.read_csv',
    'scipy.ndimage.filters.convolve': 'scipy.ndimage.convolve',
    'scipy.signal.signaltools.convolve': 'scipy.signal.convolve',
}
