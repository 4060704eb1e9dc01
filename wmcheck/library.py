"""Models of the library functions and methods the tree calls.

`call` and `method` decide what an external call means: a value computed from
its arguments, or an effect that is recorded as an event.
"""

import ast

from . import terms as T
from .terms import (Term, mk, num, string, add, sub, mul, neg, ite, tand, tor,
                    tnot, TRUE, FALSE, NONE, truth, subst, fresh, kind)
from .values import (Tup, Ref, Func, Bound, Method, Cls, Mod, Range, SliceV,
                     Choice, Seq, Partial, ListObj, DictObj, InstObj, ArrObj)
from .models import (IX, Models, SelObj, GuardedSeq, COMM, elem, item, at,
                     ndim_of, PURE_EXT, PURE_PREFIX, PURE_METHODS,
                     LOGGING_METHODS, OPEN_ERRORS, EXC_TREE, STR_METHODS)

FUNCS = {}
EWISE = {}


def fn(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def arg(a, k, i, name, default=None):
    if i is not None and i < len(a):
        return a[i]
    return k.get(name, default)


def term_of(M, v, st):
    """Term of any argument; arrays as closed values."""
    return M.ip.term(v, st)


def kwterms(M, k, st):
    return tuple(mk('kw', n, term_of(M, k[n], st)) for n in sorted(k))


# ------------------------------------------------------------ entry points

def call(M, f, a, k, st, cx, node):
    ip = M.ip
    if isinstance(f, Term):
        if f.op == 'ext':
            return call_ext(M, M.canon(f.args[0]), a, k, st, cx, node)
        if f.op == 'attr':
            return method(M, f.args[0], f.args[1], a, k, st, cx, node)
        if f.op == 'ite':
            return ip.call(Choice(f.args[0], f.args[1], f.args[2]), a, k, st,
                           cx, node)
        if f.op == 'unbound':
            ip.event('$callunbound', [f], {}, st, node)
            return mk('unbound', 'call')
        if f.op == 'func':
            return ip.havoc(node, 'call through a term')
        ts = [term_of(M, x, st) for x in a]
        ev = ip.event('$call', list(a), k, st, node, recv=f)
        r = mk('eff', '$call', ev.serial, (), f, *ts)
        ev.result = r
        return r
    ev = ip.event('$call', list(a), k, st, node, recv=f)
    ev.result = mk('eff', '$call', ev.serial, (), NONE)
    return ev.result


SHARING = {'numpy.' + x for x in (
    'reshape', 'ravel', 'transpose', 'swapaxes', 'squeeze', 'atleast_1d',
    'atleast_2d', 'atleast_3d', 'expand_dims', 'flip', 'flipud', 'fliplr',
    'rot90', 'moveaxis', 'rollaxis', 'broadcast_to', 'diagonal')} | {
        'numpy.asarray', 'numpy.ma.getmask', 'numpy.ma.getdata'}


def call_ext(M, name, a, k, st, cx, node):
    ip = M.ip
    if any(isinstance(x, Term) and x.op == 'star' for x in a):
        return pure(M, name, a, k, st, node)
    if any(isinstance(x, Choice) for x in a):
        a = [ip.refine(x, st) if isinstance(x, Choice) else x for x in a]
    h = FUNCS.get(name)
    if h is not None:
        M.called = name
        r = h(M, a, k, st, cx, node)
        if r is not None:
            if name in SHARING and a:
                M.share(r, a[0], 'part', st)
            return r
    e = EWISE.get(name)
    if e is not None:
        r = elementwise(M, e, a, k, st, node)
        if r is not None:
            return r
    short = name.split('.')[-1]
    if name.startswith('builtins.') and short in EXC_TREE:
        return mk('exc', short)
    if short.endswith(('Error', 'Exception')) and short[0].isupper():
        return mk('exc', short)
    if name.startswith('logging.'):
        if short == 'basicConfig' or short.endswith('FileHandler') or (
                getattr(M, 'log_events', False) and
                short in LOGGING_METHODS):
            effect(M, name, a, k, st, node)
        return NONE if short in LOGGING_METHODS else mk('logger', name)
    exc = OPEN_ERRORS.get(name) or \
        getattr(M, 'extra_errors', {}).get(name)
    if is_pure(name):
        r = pure(M, name, a, k, st, node)
        ip.event(name, a, k, st, node).result = r
    else:
        r = effect(M, name, a, k, st, node)
    if exc:
        ip.raise_point(st, name, exc, *[term_of(M, x, st) for x in a])
    return r


def is_pure(name):
    return name in PURE_EXT or name.startswith(PURE_PREFIX)


def pure(M, name, a, k, st, node):
    return mk('call', name, *[term_of(M, x, st) for x in a],
              *kwterms(M, k, st))


def effect(M, name, a, k, st, node, recv=None):
    ip = M.ip
    ts = [term_of(M, x, st) for x in a]
    ev = ip.event(name, a, k, st, node, recv=recv)
    rt = (term_of(M, recv, st),) if recv is not None else ()
    ev.terms = list(rt) + ts + list(kwterms(M, k, st))
    ev.result = mk('eff', name, ev.serial,
                   tuple(v for v, _ in ip.loopstack), *rt, *ts,
                   *kwterms(M, k, st))
    return ev.result


# ------------------------------------------------------------ elementwise

def align(M, vals, st):
    """Operands -> (terms, shape, mask, any array)."""
    arrs = []
    for v in vals:
        a = M.operand(v, st)
        if a is None and M.is_listlike(v, st):
            a = M.arr_of(v, st)
        arrs.append(a)
    nd = max([ndim_of(a) for a in arrs if a is not None] or [0])
    shape, mask, ts = None, None, []
    for v, a in zip(vals, arrs):
        if a is None:
            ts.append(M.pt(v, st))
            continue
        d = nd - ndim_of(a)
        mp = {IX[q]: IX[q + d] for q in range(ndim_of(a))} if d else {}
        ts.append(subst(a.term, mp))
        sh = a.shape
        if sh is not None:
            sh = (num(1),) * d + tuple(sh)
            shape = sh if shape is None else M.bshape(shape, sh)
        if a.mask is not None:
            mm = subst(a.mask, mp)
            mask = mm if mask is None else tor(mask, mm)
    return ts, shape, mask, any(x is not None for x in arrs), arrs


def elementwise(M, e, a, k, st, node):
    f, nargs, dt = e
    if len(a) < nargs:
        return None
    vals = list(a[:nargs])
    if any(isinstance(v, Choice) and M.operand(v, st) is None for v in vals):
        return None
    ts, shape, mask, isarr, arrs = align(M, vals, st)
    if any(not isinstance(t, Term) for t in ts):
        return None
    r = f(*ts)
    if not isarr:
        return r
    if mask is not None:
        r = ite(mask, ts[0], r)
    if dt is None:
        dt = M.join_dtype(*[x.dtype if x is not None else
                            ('int' if kind(t) == 'int' else 'float')
                            for x, t in zip(arrs, ts)])
    w = k.get('where')
    out = k.get('out')
    if out is None and len(a) > nargs:
        out = a[nargs]
    if w is not None:
        wt = M.pt(w, st)
        prev = M.pt(out, st) if out is not None else mk('havoc', 'uninit', 0)
        r = ite(truth(wt), r, prev)
    if out is not None and isinstance(out, Ref):
        M.write_full(st, out, r, node)
        return out
    ref = M.newarr(st, r, shape, dt, mask)
    return M.reselect(st, ref, None, *arrs)


def ew(nargs, f, *names, dt=None):
    for n in names:
        EWISE['numpy.' + n] = (f, nargs, dt)


def both(nargs, f, *names, dt=None):
    ew(nargs, f, *names, dt=dt)
    for n in names:
        EWISE['math.' + n] = (f, nargs, dt)


PI = mk('fn', 'pi')
ew(1, T.tabs, 'abs', 'absolute', dt=None)
both(1, T.sqrt, 'sqrt', dt='float')
both(1, T.floor, 'floor', dt=None)
both(1, T.ceil, 'ceil', dt=None)
both(1, T.trunc, 'trunc', dt=None)
ew(1, T.trunc, 'fix')
ew(1, T.rint, 'rint')
ew(1, neg, 'negative')
ew(1, lambda x: x, 'positive')
ew(1, lambda x: T.power(x, 2), 'square')
ew(1, T.inv, 'reciprocal')
for _n in ('log', 'exp', 'sin', 'cos', 'tan', 'log10', 'log2', 'sinh',
           'cosh', 'tanh', 'log1p', 'expm1', 'sign', 'cbrt'):
    both(1, lambda x, _n=_n: T.fn(_n, x), _n, dt='float')
for _n, _m in (('arcsin', 'asin'), ('arccos', 'acos'), ('arctan', 'atan')):
    EWISE['numpy.' + _n] = (lambda x, _n=_n: T.fn(_n, x), 1, 'float')
    EWISE['math.' + _m] = EWISE['numpy.' + _n]
EWISE['numpy.arctan2'] = (lambda y, x: T.fn('arctan2', y, x), 2, 'float')
EWISE['math.atan2'] = EWISE['numpy.arctan2']
both(1, lambda x: T.div(mul(x, PI), num(180)), 'radians', dt='float')
both(1, lambda x: T.div(mul(x, num(180)), PI), 'degrees', dt='float')
ew(1, lambda x: T.div(mul(x, PI), num(180)), 'deg2rad', dt='float')
ew(1, lambda x: T.div(mul(x, num(180)), PI), 'rad2deg', dt='float')
both(2, lambda x, y: T.fn('hypot', x, y), 'hypot', dt='float')
EWISE['math.dist'] = EWISE['numpy.hypot']
ew(2, lambda x, y: T.tmin(x, y), 'minimum', 'fmin')
ew(2, lambda x, y: T.tmax(x, y), 'maximum', 'fmax')
ew(2, add, 'add')
ew(2, sub, 'subtract')
ew(2, mul, 'multiply')
ew(2, T.div, 'divide', 'true_divide', dt='float')
ew(2, T.floordiv, 'floor_divide')
ew(2, T.mod, 'mod', 'remainder')
EWISE['math.fmod'] = (lambda x, y: mk('fn', 'fmod', x, y), 2, None)
EWISE['numpy.fmod'] = EWISE['math.fmod']
ew(2, T.power, 'power', 'float_power')
EWISE['math.pow'] = EWISE['numpy.power']
both(1, T.isnan, 'isnan', dt='bool')
ew(1, lambda x: tnot(T.isnan(x)), 'isfinite', dt='bool')
EWISE['math.isfinite'] = EWISE['numpy.isfinite']
ew(2, lambda x, y: tand(truth(x), truth(y)), 'logical_and', dt='bool')
ew(2, lambda x, y: tor(truth(x), truth(y)), 'logical_or', dt='bool')
ew(1, lambda x: tnot(truth(x)), 'logical_not', dt='bool')
ew(2, lambda x, y: tor(tand(truth(x), tnot(truth(y))),
                       tand(tnot(truth(x)), truth(y))), 'logical_xor',
   dt='bool')
ew(2, lambda x, y: tand(truth(x), truth(y)) if kind(x) == 'bool' else
   mk('fn', 'bitand', x, y), 'bitwise_and')
ew(2, lambda x, y: tor(truth(x), truth(y)) if kind(x) == 'bool' else
   mk('fn', 'bitor', x, y), 'bitwise_or')
ew(1, lambda x: tnot(truth(x)), 'invert', 'bitwise_not')
ew(2, lambda x, y: T.lt(y, x), 'greater', dt='bool')
ew(2, lambda x, y: T.le(y, x), 'greater_equal', dt='bool')
ew(2, lambda x, y: T.lt(x, y), 'less', dt='bool')
ew(2, lambda x, y: T.le(x, y), 'less_equal', dt='bool')
ew(2, lambda x, y: T.eq(x, y), 'equal', dt='bool')
ew(2, lambda x, y: tnot(T.eq(x, y)), 'not_equal', dt='bool')
EWISE['operator.mul'] = EWISE['numpy.multiply']
EWISE['operator.add'] = EWISE['numpy.add']
for _n, _f in (('mul', ast.Mult), ('add', ast.Add), ('sub', ast.Sub),
               ('truediv', ast.Div), ('floordiv', ast.FloorDiv),
               ('mod', ast.Mod), ('concat', ast.Add), ('and_', ast.BitAnd),
               ('or_', ast.BitOr), ('iadd', ast.Add)):
    FUNCS['operator.' + _n] = (
        lambda M, a, k, st, cx, node, _f=_f:
        M.binop(_f(), a[0], a[1], st, node) if len(a) == 2 else None)


@fn('operator.itemgetter')
def _itemgetter(M, a, k, st, cx, node):
    return Partial(mk('ext', '$itemget'), (a[0],), {}) if len(a) == 1 \
        else None


@fn('$itemget')
def _itemget(M, a, k, st, cx, node):
    return M.getitem(a[1], a[0], st, node)


@fn('numpy.around', 'numpy.round')
def _around(M, a, k, st, cx, node):
    d = arg(a, k, 1, 'decimals', num(0))
    if d is num(0):
        return elementwise(M, (T.rint, 1, None), a[:1], {}, st, node)
    return elementwise(M, (lambda x: mk('fn', 'round', x,
                                        M.ip.term(d, st)), 1, None),
                       a[:1], {}, st, node)


@fn('numpy.clip')
def _clip(M, a, k, st, cx, node):
    lo = arg(a, k, 1, 'a_min', arg(a, k, None, 'min', NONE))
    hi = arg(a, k, 2, 'a_max', arg(a, k, None, 'max', NONE))
    r = a[0]
    kw = {n: v for n, v in k.items() if n == 'out'}
    if lo is not NONE:
        r = elementwise(M, (T.tmax, 2, None), [r, lo], {}, st, node)
    if hi is not NONE:
        r = elementwise(M, (T.tmin, 2, None), [r, hi], {}, st, node)
    if kw and isinstance(kw['out'], Ref):
        M.write_full(st, kw['out'], M.pt(r, st), node)
        return kw['out']
    return r


@fn('numpy.nan_to_num')
def _n2n(M, a, k, st, cx, node):
    v = arg(a, k, None, 'nan', num(0))
    vt = M.pt(v, st)
    r = elementwise(M, (lambda x: ite(T.isnan(x), vt, x), 1, None),
                    a[:1], {}, st, node)
    if arg(a, k, 1, 'copy', TRUE) is FALSE and isinstance(a[0], Ref):
        M.write_full(st, a[0], M.pt(r, st), node)
        return a[0]
    return r


@fn('numpy.seterr', 'numpy.errstate', 'numpy.set_printoptions',
    'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.warn',
    'builtins.print', 'gdal.UseExceptions', 'gdal.AllRegister',
    'gdal.SetConfigOption', 'gdal.PushErrorHandler', 'gdal.ErrorReset',
    'gdal.PopErrorHandler', 'gc.collect')
def _nop(M, a, k, st, cx, node):
    return NONE


# ------------------------------------------------------------ creation

def dims_of(M, v, st):
    if isinstance(v, Tup):
        return [M.ip.term(x, st) for x in v.items]
    if isinstance(v, Ref):
        c = M.concrete(v, st)
        if c is not None:
            return [M.ip.term(x, st) for x in c]
    t = M.ip.term(v, st)
    if t.op in ('tuple', 'list'):
        return list(t.args)
    if kind(t) in ('int', 'num', 'any'):
        return [t]
    return None


def filled(M, shape, value, dt, st):
    d = dims_of(M, shape, st)
    if d is None:
        return None
    return M.newarr(st, M.cast(dt, value), d, dt)


@fn('numpy.zeros', 'numpy.ma.zeros')
def _zeros(M, a, k, st, cx, node):
    dt = M.dtype(arg(a, k, 1, 'dtype'), st) or 'float'
    return filled(M, arg(a, k, 0, 'shape'), num(0), dt, st)


@fn('numpy.ones', 'numpy.ma.ones')
def _ones(M, a, k, st, cx, node):
    dt = M.dtype(arg(a, k, 1, 'dtype'), st) or 'float'
    return filled(M, arg(a, k, 0, 'shape'), num(1), dt, st)


@fn('numpy.empty')
def _empty(M, a, k, st, cx, node):
    dt = M.dtype(arg(a, k, 1, 'dtype'), st) or 'float'
    d = dims_of(M, arg(a, k, 0, 'shape'), st)
    if d is None:
        return None
    return M.newarr(st, mk('at', mk('havoc', 'uninit', M.ip.newloc()),
                           *IX[:len(d)]), d, dt)


@fn('numpy.full')
def _full(M, a, k, st, cx, node):
    v = arg(a, k, 1, 'fill_value')
    vt = M.pt(v, st)
    dt = M.dtype(arg(a, k, 2, 'dtype'), st) or (
        'int' if kind(vt) == 'int' else 'bool' if kind(vt) == 'bool'
        else 'float')
    return filled(M, arg(a, k, 0, 'shape'), vt, dt, st)


def like(M, a, k, st, value, pos=1):
    o = M.operand(a[0], st) or M.arr_of(a[0], st)
    if o is None:
        return None
    dt = M.dtype(arg(a, k, pos, 'dtype'), st) or o.dtype or 'float'
    sh = [M.dim(o, q) for q in range(ndim_of(o))]
    return M.newarr(st, M.cast(dt, value), sh, dt)


@fn('numpy.zeros_like')
def _zl(M, a, k, st, cx, node):
    return like(M, a, k, st, num(0))


@fn('numpy.ones_like')
def _ol(M, a, k, st, cx, node):
    return like(M, a, k, st, num(1))


@fn('numpy.full_like')
def _fl(M, a, k, st, cx, node):
    return like(M, a, k, st, M.pt(arg(a, k, 1, 'fill_value'), st), 2)


@fn('numpy.empty_like')
def _el(M, a, k, st, cx, node):
    o = M.operand(a[0], st) or M.arr_of(a[0], st)
    if o is None:
        return None
    return like(M, a, k, st, mk('at', mk('havoc', 'uninit', M.ip.newloc()),
                                *IX[:ndim_of(o)]))


@fn('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray',
    'numpy.copy', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.squeeze',
    'numpy.ma.asarray', 'numpy.ma.array', 'numpy.require',
    'numpy.ma.masked_array', 'numpy.ma.MaskedArray')
def _array(M, a, k, st, cx, node):
    v = a[0]
    name = _callname(M, node)
    o = M.operand(v, st)
    dt = M.dtype(arg(a, k, 1, 'dtype'), st)
    if name == 'squeeze':
        return None
    if isinstance(v, Choice):
        return None
    if o is None and M.is_listlike(v, st) or isinstance(v, (Range, Seq)):
        o = M.arr_of(v, st)
        if o is None:
            return None
        if dt is None and kind(o.term) == 'int':
            dt = 'int'
    mask = k.get('mask') if o is not None else None
    if o is None:
        if isinstance(v, Term):
            if v.op == 'nonzero' or v.op == 'nzidx':
                return v
            if v.op in ('call', 'item', 'slice', 'havoc', 'sym', 'attr',
                        'mcall', 'eff') and kind(v) == 'any':
                return v
            return v
        return None
    sh = [M.dim(o, q) for q in range(ndim_of(o))]
    t = M.cast(dt, o.term) if dt else o.term
    mt = o.mask if name not in ('array', 'asarray') or \
        'ma.' in ast.unparse(node.func if isinstance(node, ast.Call)
                             else node) else None
    if mask is not None:
        mm = truth(M.pt(mask, st))
        mt = mm if mt is None else tor(mt, mm)
    if mt is None and name in ('masked_array', 'MaskedArray') or \
            (M.called or '').startswith('numpy.ma.'):
        mt = FALSE if mt is None else mt
    if name in ('asarray',) and isinstance(v, Ref) and (
            dt is None or dt == o.dtype) and M.operand(v, st) is not None \
            and o.mask is None:
        return v
    if isinstance(o, SelObj):
        r = M.newarr(st, t, sh, dt or o.dtype, mt)
        st.heap[r.loc] = SelObj(t, sh, dt or o.dtype, mt, o.sel)
        return r
    return M.newarr(st, t, sh, dt or o.dtype, mt)


def _callname(M, node):
    return M.called.split('.')[-1]


@fn('numpy.arange')
def _arange(M, a, k, st, cx, node):
    ts = [M.ip.term(x, st) for x in a]
    lo, hi, stp = num(0), None, num(1)
    if len(ts) == 1:
        hi = ts[0]
    elif len(ts) == 2:
        lo, hi = ts
    elif len(ts) == 3:
        lo, hi, stp = ts
    else:
        return None
    n = M.length(Range(lo, hi, stp), st)
    if kind(n) != 'int':
        n = T.ceil(T.div(sub(hi, lo), stp))
    dt = 'int' if all(kind(t) == 'int' for t in (lo, stp)) else 'float'
    return M.newarr(st, add(lo, mul(IX[0], stp)), [n],
                    M.dtype(k.get('dtype'), st) or dt)


@fn('numpy.linspace')
def _linspace(M, a, k, st, cx, node):
    lo, hi = M.ip.term(a[0], st), M.ip.term(a[1], st)
    n = M.ip.term(arg(a, k, 2, 'num', num(50)), st)
    ep = arg(a, k, 3, 'endpoint', TRUE)
    if ep not in (TRUE, FALSE):
        return None
    d = sub(n, num(1)) if ep is TRUE else n
    t = add(lo, T.div(mul(IX[0], sub(hi, lo)), d))
    if ep is TRUE:
        t = ite(T.lt(num(1), n), t, lo)
    return M.newarr(st, t, [n], M.dtype(k.get('dtype'), st) or 'float')


@fn('numpy.meshgrid')
def _meshgrid(M, a, k, st, cx, node):
    x, y = M.arr_of(a[0], st), M.arr_of(a[1], st)
    if x is None or y is None or len(a) != 2:
        return None
    ij = k.get('indexing') is string('ij')
    nx, ny = M.dim(x, 0), M.dim(y, 0)
    if ij:
        return Tup([M.newarr(st, x.term, [nx, ny], x.dtype),
                    M.newarr(st, at(y.term, [IX[1]]), [nx, ny], y.dtype)])
    return Tup([M.newarr(st, at(x.term, [IX[1]]), [ny, nx], x.dtype),
                M.newarr(st, y.term, [ny, nx], y.dtype)])


@fn('numpy.indices')
def _indices(M, a, k, st, cx, node):
    d = dims_of(M, a[0], st)
    if d is None:
        return None
    return Tup([M.newarr(st, IX[q], d, 'int') for q in range(len(d))])


# ------------------------------------------------------------ short arrays

def small(M, v, st, limit=64):
    """The elements of an array with a known number of them, flattened."""
    if isinstance(v, Choice):
        return None
    if isinstance(v, Tup) and len(v.items) == 1 and not isinstance(
            v.items[0], Term):
        return small(M, v.items[0], st, limit)
    o = M.operand(v, st) or M.arr_of(v, st)
    if o is None or o.shape is None or o.mask is not None or \
            isinstance(o, SelObj):
        return None
    dims = [M.dim(o, q) for q in range(ndim_of(o))]
    if not dims or not all(d.op == 'num' for d in dims):
        return None
    total = 1
    for d in dims:
        total *= int(d.args[0])
    if total > limit:
        return None
    import itertools
    return [at(o.term, [num(x) for x in ix]) for ix in itertools.product(
        *[range(int(d.args[0])) for d in dims])]


def short(M, ts, st, dtype=None):
    o = M.list_arr(ListObj([('e', t) for t in ts]), None, st)
    return M.newarr(st, o.term, o.shape, dtype)


def chosen(M, o, st):
    """The positions where a short 1-D array is true, when known."""
    if isinstance(o, Ref):
        o = M.operand(o, st)
    if not hasattr(o, 'shape') or not o.shape or len(o.shape) != 1:
        return None
    d = M.dim(o, 0)
    if d.op != 'num' or d.args[0] > 64 or o.mask is not None or \
            isinstance(o, SelObj):
        return None
    cs = [truth(at(o.term, [num(x)])) for x in range(int(d.args[0]))]
    if not all(c.op == 'bool' for c in cs):
        return None
    return Tup([short(M, [num(i) for i, c in enumerate(cs) if c.args[0]],
                      st, 'int')])


@fn('numpy.diff')
def _diff(M, a, k, st, cx, node):
    xs = small(M, a[0], st) if len(a) == 1 and not k else None
    if xs is None:
        return None
    return short(M, [sub(y, x) for x, y in zip(xs, xs[1:])], st)


def numbers(M, v, st):
    xs = small(M, v, st)
    if xs is None or not all(x.op == 'num' for x in xs):
        return None
    return [x.args[0] for x in xs]


@fn('numpy.intersect1d', 'numpy.union1d', 'numpy.setdiff1d')
def _sets(M, a, k, st, cx, node):
    xs = [numbers(M, v, st) for v in a]
    if k or len(a) != 2 or None in xs:
        return None
    x, y = set(xs[0]), set(xs[1])
    r = {'intersect1d': x & y, 'union1d': x | y,
         'setdiff1d': x - y}[_callname(M, node)]
    return short(M, [num(q) for q in sorted(r)], st, 'int')


@fn('numpy.compress', 'numpy.extract')
def _compress(M, a, k, st, cx, node):
    if k or len(a) != 2:
        return None
    cs, xs = small(M, a[0], st), small(M, a[1], st)
    if cs is None or xs is None or len(cs) > len(xs):
        return None
    cs = [truth(c) for c in cs]
    if not all(c.op == 'bool' for c in cs):
        return None
    return short(M, [x for c, x in zip(cs, xs) if c.args[0]], st)


@fn('numpy.flatnonzero')
def _flatnonzero(M, a, k, st, cx, node):
    xs = small(M, a[0], st)
    if xs is None:
        return None
    cs = [truth(x) for x in xs]
    if not all(c.op == 'bool' for c in cs):
        return None
    return short(M, [num(i) for i, c in enumerate(cs) if c.args[0]], st,
                 'int')


@fn('numpy.delete')
def _delete(M, a, k, st, cx, node):
    if k or len(a) != 2:
        return None
    xs = small(M, a[0], st)
    ix = numbers(M, a[1], st)
    if ix is None and isinstance(a[1], Term) and a[1].op == 'num':
        ix = [a[1].args[0]]
    if xs is None or ix is None:
        return None
    drop = {int(i) % len(xs) for i in ix} if xs else set()
    return short(M, [x for i, x in enumerate(xs) if i not in drop], st)


# ------------------------------------------------------------ selection

@fn('numpy.where')
def _where(M, a, k, st, cx, node):
    if len(a) == 3:
        return elementwise(M, (lambda c, x, y: ite(truth(c), x, y), 3,
                               None if True else None), a, {}, st, node)
    c = M.operand(a[0], st)
    if c is not None:
        r = chosen(M, c, st)
        return mk('nonzero', truth(c.term)) if r is None else r
    t = M.ip.term(a[0], st)
    return mk('nonzero', truth(t))


@fn('numpy.nonzero', 'numpy.argwhere')
def _nonzero(M, a, k, st, cx, node):
    c = M.operand(a[0], st)
    if c is None:
        return None
    r = chosen(M, c, st)
    if r is not None:
        return r if _callname(M, node) == 'nonzero' else None
    return mk('nonzero', truth(c.term))


@fn('numpy.select')
def _select(M, a, k, st, cx, node):
    conds, vals = M.concrete(a[0], st), M.concrete(a[1], st)
    if conds is None or vals is None:
        return None
    r = arg(a, k, 2, 'default', num(0))
    for c, v in reversed(list(zip(conds, vals))):
        r = elementwise(M, (lambda q, x, y: ite(truth(q), x, y), 3, None),
                        [c, v, r], {}, st, node)
        if r is None:
            return None
    return r


@fn('numpy.piecewise')
def _piecewise(M, a, k, st, cx, node):
    conds, vals = M.concrete(a[1], st), M.concrete(a[2], st)
    if conds is None or vals is None:
        return None
    r = num(0)
    vs = []
    for v in vals:
        if not isinstance(v, Term):
            v = M.ip.call(v, [a[0]], {}, st, cx, node)
        vs.append(v)
    if len(vs) == len(conds) + 1:
        r = vs.pop()
    for c, v in zip(conds, vs):       # a later condition wins
        r = elementwise(M, (lambda q, x, y: ite(truth(q), x, y), 3, None),
                        [c, v, r], {}, st, node)
    return r


@fn('numpy.putmask', 'numpy.copyto', 'numpy.place')
def _putmask(M, a, k, st, cx, node):
    name = _callname(M, node)
    if name == 'copyto':
        w = arg(a, k, 3, 'where')
        dst, v = a[0], a[1]
    else:
        dst, w, v = a[0], a[1], a[2]
    if not isinstance(dst, Ref):
        return None
    old = M.pt(dst, st)
    ts, shape, mask, isarr, arrs = align(
        M, [dst, v] + ([w] if w is not None else []), st)
    c = truth(ts[2]) if w is not None else TRUE
    M.write_full(st, dst, ite(c, ts[1], old), node)
    return NONE


@fn('numpy.take')
def _take(M, a, k, st, cx, node):
    ax = arg(a, k, 2, 'axis', NONE)
    if ax is NONE or ax is num(0):
        return M.getitem(a[0], a[1], st, node)
    return None


# ------------------------------------------------------------ reductions

def reduce_arr(M, o, axis, st, body_of, fold, keep=False):
    """Reduce over an axis (or all) with fold(var, n, body)."""
    nd = ndim_of(o)
    axes = list(range(nd)) if axis is None else \
        [q + nd if q < 0 else q for q in axis]
    mp, vs = {}, []
    out = 0
    shape = []
    for q in range(nd):
        if q in axes:
            v = fresh('r')
            vs.append((v, M.dim(o, q)))
            mp[IX[q]] = v
            if keep:
                shape.append(num(1))
                out += 1
        else:
            mp[IX[q]] = IX[out]
            out += 1
            shape.append(M.dim(o, q))
    body = body_of(subst(o.term, mp),
                   subst(o.mask, mp) if o.mask is not None else None)
    for v, n in reversed(vs):
        body = fold(v, n, body)
    return body, shape, vs


def sel_guard(o, t, neutral):
    return ite(o.sel, t, neutral) if isinstance(o, SelObj) else t


def axis_of(M, v, st):
    if v is None or v is NONE:
        return None
    if isinstance(v, Tup):
        return [int(x.args[0]) for x in v.items]
    t = M.ip.term(v, st)
    if t.op == 'num':
        return [int(t.args[0])]
    return 'x'


def fold_min(v, n, body):
    if n.op == 'num' and 0 < n.args[0] <= 16:
        return T.tmin(*[subst(body, {v: num(q)})
                        for q in range(int(n.args[0]))])
    if not T.occurs(v, body):
        return body
    return T.close('rmin', (v,), (n, body))


def fold_max(v, n, body):
    return neg(fold_min(v, n, neg(body)))


def fold_any(v, n, body):
    if n.op == 'num' and n.args[0] <= 16:
        return tor(*[subst(body, {v: num(q)}) for q in range(int(n.args[0]))])
    if not T.occurs(v, body):
        return body
    return mk('exists', T.binder('exists', (v,), (), (n, body)))


def reduction(name):
    def h(M, a, k, st, cx, node):
        if name in ('max', 'min') and len(a) >= 1 and \
                not M.arr_of(a[0], st):
            return None
        o = M.arr_of(a[0], st)
        if o is None or o.shape is None:
            return None
        ax = axis_of(M, arg(a, k, 1, 'axis'), st)
        if ax == 'x':
            return None
        if name in ('max', 'min') and ax is None and 'out' not in k:
            pass
        keep = k.get('keepdims') is TRUE
        sel = isinstance(o, SelObj)
        nan = name.startswith('nan')
        base = name[3:] if nan else name

        def neutral(t, m, z):
            if sel:
                t = ite(o.sel, t, z)
            if m is not None:
                t = ite(m, z, t)
            if nan:
                t = ite(T.isnan(t), z, t)
            return t
        if sel and base in ('mean', 'prod'):
            return None
        # the guard of a selection ranges over the same indices
        oo = ArrObj(neutral(o.term, o.mask,
                            {'sum': num(0), 'max': neg(T.INF),
                             'min': T.INF, 'any': FALSE, 'all': TRUE,
                             'prod': num(1), 'mean': num(0)}[base]),
                    o.shape, o.dtype)
        if o.mask not in (None, FALSE) and base == 'mean' or \
                nan and base == 'mean':
            return None
        idf = lambda t, m: t
        if base == 'sum':
            r, sh, vs = reduce_arr(M, oo, ax, st, lambda t, m: M.cast(
                'int', t) if kind(t) == 'bool' else t, T.total, keep)
        elif base == 'mean':
            r, sh, vs = reduce_arr(M, oo, ax, st, idf, T.total, keep)
            for _, n in vs:
                r = T.div(r, n)
        elif base == 'max':
            r, sh, vs = reduce_arr(M, oo, ax, st, idf, fold_max, keep)
        elif base == 'min':
            r, sh, vs = reduce_arr(M, oo, ax, st, idf, fold_min, keep)
        elif base == 'any':
            r, sh, vs = reduce_arr(M, oo, ax, st, lambda t, m: truth(t),
                                   fold_any, keep)
        elif base == 'all':
            r, sh, vs = reduce_arr(M, oo, ax, st,
                                   lambda t, m: tnot(truth(t)),
                                   fold_any, keep)
            r = tnot(r)
        elif base == 'prod':
            r, sh, vs = reduce_arr(
                M, oo, ax, st, idf, lambda v, n, b: _fold_prod(v, n, b),
                keep)
        else:
            return None
        if not sh:
            return r
        mask = None
        if o.mask is not None:
            # an all-masked reduction stays masked
            mm, _, _ = reduce_arr(M, ArrObj(tnot(o.mask), o.shape, 'bool'),
                                  ax, st, idf, fold_any, keep)
            mask = tnot(mm)
            if base in ('max', 'min'):
                # numpy's fill value is left in the data
                r = ite(mask, num(10 ** 20), r)
        return M.newarr(st, r, sh, 'bool' if base in ('any', 'all')
                        else o.dtype if base in ('max', 'min') else 'float',
                        mask)
    return h


def _fold_prod(v, n, b):
    if n.op == 'num' and n.args[0] <= 16:
        r = num(1)
        for q in range(int(n.args[0])):
            r = mul(r, subst(b, {v: num(q)}))
        return r
    return T.binder('prod', (v,), (), (n, b))


for _n in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod', 'nanmax',
           'nanmin', 'nansum'):
    FUNCS['numpy.' + _n] = reduction(_n)
    FUNCS['numpy.ma.' + _n] = reduction(_n)
FUNCS['numpy.amax'] = FUNCS['numpy.ma.amax'] = reduction('max')
FUNCS['numpy.amin'] = FUNCS['numpy.ma.amin'] = reduction('min')
FUNCS['numpy.average'] = lambda M, a, k, st, cx, node: \
    reduction('mean')(M, a, k, st, cx, node) if 'weights' not in k and \
    len(a) < 3 else None


def ufunc_reduce(op):
    base = {'numpy.maximum': 'max', 'numpy.minimum': 'min',
            'numpy.add': 'sum', 'numpy.multiply': 'prod',
            'numpy.logical_or': 'any', 'numpy.logical_and': 'all'}.get(op)

    def h(M, a, k, st, cx, node):
        if base is None:
            return None
        k2 = dict(k)
        if len(a) < 2 and 'axis' not in k2:
            k2['axis'] = num(0)
        v = a[0]
        return reduction(base)(M, [v] + list(a[1:]), k2, st, cx, node)
    return h


for _n in ('maximum', 'minimum', 'add', 'multiply', 'logical_or',
           'logical_and'):
    FUNCS['numpy.%s.reduce' % _n] = ufunc_reduce('numpy.' + _n)


# ------------------------------------------------------------ shape

def stack_list(M, v, st):
    vals = M.concrete(v, st)
    return vals


@fn('numpy.dstack')
def _dstack(M, a, k, st, cx, node):
    return _stack_(M, a, num(2), st, node, False)


@fn('numpy.ma.dstack')
def _madstack(M, a, k, st, cx, node):
    return _stack_(M, a, num(2), st, node, True)


@fn('numpy.stack')
def _stack(M, a, k, st, cx, node):
    return _stack_(M, a, arg(a, k, 1, 'axis', num(0)), st, node, False)


@fn('numpy.ma.stack')
def _mastack(M, a, k, st, cx, node):
    return _stack_(M, a, arg(a, k, 1, 'axis', num(0)), st, node, True)


def _stack_(M, a, ax, st, node, keepmask):
    vals = stack_list(M, a[0], st)
    if ax.op != 'num':
        return None
    arrs = None
    if vals is not None and len(vals) <= 64:
        arrs = [M.arr_of(v, st) for v in vals]
        if any(x is None or x.shape is None for x in arrs) or not arrs:
            return None
        nd = ndim_of(arrs[0])
        q = int(ax.args[0])
        if q < 0:
            q += nd + 1
        mp = {IX[d]: IX[d if d < q else d + 1] for d in range(nd)}
        sh = list(arrs[0].shape)
        sh.insert(q, num(len(arrs)))
        body = subst(arrs[-1].term, mp)
        mask = None
        for x in range(len(arrs) - 2, -1, -1):
            body = ite(T.eq(IX[q], num(x)), subst(arrs[x].term, mp), body)
        if any(x.mask is not None for x in arrs):
            # without numpy.ma the mask is dropped
            mask = FALSE
            for x in range(len(arrs) - 1 if keepmask else -1, -1, -1):
                mask = ite(T.eq(IX[q], num(x)),
                           subst(arrs[x].mask or FALSE, mp), mask)
        return M.newarr(st, body, sh, arrs[0].dtype, mask)
    # symbolic list of arrays
    segs = M.list_segs(a[0], st, node)
    if len(segs) == 1 and segs[0][0] == 'c' and len(segs[0][1]) == 1 and \
            segs[0][3] is TRUE:
        x = M.arr_of(segs[0][4], st)
        if x is None or x.shape is None:
            return None
        nd = ndim_of(x)
        q = int(ax.args[0])
        if q < 0:
            q += nd + 1
        mp = {IX[d]: IX[d if d < q else d + 1] for d in range(nd)}
        mp[segs[0][1][0]] = IX[q]
        sh = list(x.shape)
        sh.insert(q, segs[0][2][0])
        return M.newarr(st, subst(x.term, mp), sh, x.dtype)
    return None


@fn('numpy.concatenate', 'numpy.hstack', 'numpy.vstack')
def _concat(M, a, k, st, cx, node):
    name = _callname(M, node)
    vals = M.concrete(a[0], st)
    if vals is None or not vals:
        return None
    arrs = [M.arr_of(v, st) for v in vals]
    if any(x is None or x.shape is None for x in arrs):
        return None
    nd = ndim_of(arrs[0])
    ax = 0
    if name == 'concatenate':
        x = arg(a, k, 1, 'axis', num(0))
        if x.op != 'num':
            return None
        ax = int(x.args[0])
    elif name == 'hstack':
        ax = 1 if nd > 1 else 0
    elif nd == 1:
        return None
    return join_arrays(M, arrs, ax, st)


def join_arrays(M, arrs, ax, st):
    body, off = None, num(0)
    offs = []
    for x in arrs:
        offs.append(off)
        off = add(off, x.shape[ax])
    for x, o in reversed(list(zip(arrs, offs))):
        t = subst(x.term, {IX[ax]: sub(IX[ax], o)}) if o is not num(0) \
            else x.term
        if body is None:
            body = t
        else:
            body = ite(T.lt(IX[ax], add(o, x.shape[ax])), t, body)
    sh = list(arrs[0].shape)
    sh[ax] = off
    return M.newarr(st, body, sh, M.join_dtype(*[x.dtype for x in arrs]))


@fn('numpy.append')
def _append(M, a, k, st, cx, node):
    if len(a) > 2 or 'axis' in k:
        return None
    arrs = []
    for v in a:
        x = M.arr_of(v, st)
        if x is None and isinstance(v, Term):
            x = ArrObj(v, (num(1),), 'float') if kind(v) in (
                'int', 'num') else None
        if x is None or x.shape is None or len(x.shape) != 1:
            return None
        arrs.append(x)
    # empty list first: only the appended values
    arrs2 = [x for x in arrs if x.shape[0] is not num(0)]
    if not arrs2:
        arrs2 = arrs[:1]
    return join_arrays(M, arrs2, 0, st)


def flip(M, v, axes, st):
    o = M.operand(v, st) or M.arr_of(v, st)
    if o is None:
        return None
    nd = ndim_of(o)
    idx = list(IX[:nd])
    for q in axes:
        if q >= nd:
            return None
        idx[q] = sub(sub(M.dim(o, q), num(1)), IX[q])
    sh = [M.dim(o, q) for q in range(nd)]
    if isinstance(v, Ref) and not isinstance(o, SelObj) and o.mask is None:
        return M.ip.alloc(st, ArrObj(None, tuple(sh), o.dtype, None,
                                     (v.loc, tuple(idx), tuple(sh))))
    return M.newarr(st, at(o.term, idx), sh, o.dtype,
                    at(o.mask, idx) if o.mask is not None else None)


@fn('numpy.flipud')
def _flipud(M, a, k, st, cx, node):
    return flip(M, a[0], [0], st)


@fn('numpy.fliplr')
def _fliplr(M, a, k, st, cx, node):
    return flip(M, a[0], [1], st)


@fn('numpy.flip')
def _flip(M, a, k, st, cx, node):
    ax = axis_of(M, arg(a, k, 1, 'axis'), st)
    o = M.operand(a[0], st) or M.arr_of(a[0], st)
    if o is None or ax == 'x':
        return None
    nd = ndim_of(o)
    return flip(M, a[0], [q % nd for q in ax] if ax is not None
                else range(nd), st)


@fn('numpy.rot90')
def _rot90(M, a, k, st, cx, node):
    n = arg(a, k, 1, 'k', num(1))
    o = M.operand(a[0], st)
    if o is None or n.op != 'num' or 'axes' in k or len(a) > 2:
        return None
    r, c = M.dim(o, 0), M.dim(o, 1)
    i, j = IX[0], IX[1]
    q = int(n.args[0]) % 4
    last_r, last_c = sub(r, num(1)), sub(c, num(1))
    # counter-clockwise: out[i, j] = in[j, c - 1 - i]
    idx, sh = {0: ((i, j), (r, c)),
               1: ((j, sub(last_c, i)), (c, r)),
               2: ((sub(last_r, i), sub(last_c, j)), (r, c)),
               3: ((sub(last_r, j), i), (c, r))}[q]
    return M.newarr(st, at(o.term, idx), sh, o.dtype,
                    at(o.mask, idx) if o.mask is not None else None)


@fn('numpy.transpose')
def _transpose(M, a, k, st, cx, node):
    ax = arg(a, k, 1, 'axes')
    p = None
    if ax is not None and ax is not NONE:
        p = [int(x.args[0]) for x in M.concrete(ax, st)]
    return M.transpose(a[0], st, p)


@fn('numpy.swapaxes')
def _swapaxes(M, a, k, st, cx, node):
    o = M.operand(a[0], st)
    if o is None or ndim_of(o) != 2:
        return None
    return M.transpose(a[0], st)


@fn('numpy.reshape')
def _reshape(M, a, k, st, cx, node):
    order = arg(a, k, 2, 'order', string('C'))
    return M.reshape(st, a[0], a[1], node, order.args[0])


@fn('numpy.ravel')
def _ravel(M, a, k, st, cx, node):
    order = arg(a, k, 1, 'order', string('C'))
    return M.reshape(st, a[0], num(-1), node, order.args[0])


@fn('numpy.expand_dims')
def _expand(M, a, k, st, cx, node):
    return None


@fn('numpy.pad')
def _pad(M, a, k, st, cx, node):
    o = M.operand(a[0], st)
    if o is None or o.shape is None:
        return None
    nd = ndim_of(o)
    w = M.ip.term(a[1], st)
    if w.op == 'num':
        widths = [(w, w)] * nd
    elif w.op in ('tuple', 'list'):
        args = w.args
        if all(x.op in ('tuple', 'list') for x in args):
            widths = [(x.args[0], x.args[1]) for x in args]
            if len(widths) == 1:
                widths = widths * nd
        elif len(args) == 2:
            widths = [(args[0], args[1])] * nd
        else:
            return None
    elif kind(w) == 'int':
        widths = [(w, w)] * nd
    else:
        return None
    mode = arg(a, k, 2, 'mode', string('constant'))
    idx, inside, sh = [], [], []
    for q in range(nd):
        lo, hi = widths[q]
        d = o.shape[q]
        j = sub(IX[q], lo)
        sh.append(add(add(d, lo), hi))
        if mode is string('edge'):
            idx.append(T.tmax(num(0), T.tmin(j, sub(d, num(1)))))
        else:
            idx.append(j)
            inside += [T.le(num(0), j), T.lt(j, d)]
    t = at(o.term, idx)
    if mode is string('constant'):
        cv = k.get('constant_values', num(0))
        if not isinstance(cv, Term):
            return None
        t = ite(tand(*inside), t, cv)
    elif mode is not string('edge'):
        return None
    return M.newarr(st, t, sh, o.dtype)


@fn('numpy.size')
def _size(M, a, k, st, cx, node):
    if len(a) > 1 or k:
        ax = arg(a, k, 1, 'axis')
        o = M.arr_of(a[0], st)
        if o is not None and isinstance(ax, Term) and ax.op == 'num':
            return M.dim(o, int(ax.args[0]))
        return None
    v = a[0]
    o = M.operand(v, st)
    if o is not None:
        return M.arr_attr(v, o, 'size', st, node)
    if isinstance(v, (Tup, Range, Seq)) or M.is_listlike(v, st):
        return M.length(v, st)
    if isinstance(v, Term) and v.op not in ('num',):
        if kind(v) in ('int', 'num'):
            return num(1)
        return M.length(v, st)
    return num(1)


@fn('numpy.shape')
def _shape(M, a, k, st, cx, node):
    o = M.arr_of(a[0], st)
    if o is None:
        return None
    return M.arr_attr(a[0], o, 'shape', st, node)


@fn('numpy.ndim')
def _ndim(M, a, k, st, cx, node):
    o = M.arr_of(a[0], st)
    return num(ndim_of(o)) if o is not None else None


@fn('numpy.unique')
def _unique(M, a, k, st, cx, node):
    if k:
        return None
    o = M.arr_of(a[0], st)
    if o is None:
        return None
    xs = numbers(M, a[0], st)
    if xs is not None:
        return short(M, [num(q) for q in sorted(set(xs))], st)
    return mk('call', 'numpy.unique', M.arrval(o))


@fn('builtins.int')
def _pyint(M, a, k, st, cx, node):
    scalar_only(M, a, st, node)
    return _int(M, a, k, st, cx, node)


@fn('builtins.float')
def _pyfloat(M, a, k, st, cx, node):
    scalar_only(M, a, st, node)
    return _float(M, a, k, st, cx, node)


def scalar_only(M, a, st, node):
    """int() and float() of an array of several elements fail."""
    o = M.operand(a[0], st) if a else None
    if o is not None and o.shape:
        n = o.shape[0]
        for x in o.shape[1:]:
            n = T.mul(n, x)
        M.ip.fails('TypeError', 'an array is made a number', st, node,
                   T.tnot(T.eq(n, num(1))))


@fn('numpy.float32', 'numpy.float64', 'numpy.double', 'numpy.float_')
def _float(M, a, k, st, cx, node):
    if not a:
        return num(0)
    o = M.operand(a[0], st)
    if o is not None:
        if o.shape is not None and not o.shape:
            return o.term
        return None
    t = M.ip.term(a[0], st)
    if t.op == 'str':
        try:
            return num(float(t.args[0]))
        except ValueError:
            return None
    if kind(t) == 'str':
        return mk('tofloat', t)
    return t


@fn('numpy.int32', 'numpy.int64', 'numpy.intp')
def _int(M, a, k, st, cx, node):
    if not a:
        return num(0)
    o = M.operand(a[0], st)
    if o is not None:
        return None
    t = M.ip.term(a[0], st)
    if t.op == 'str':
        try:
            return num(int(t.args[0]))
        except ValueError:
            return None
    if kind(t) == 'str':
        return mk('toint', t)
    if kind(t) == 'bool':
        return M.cast('int', t)
    return T.trunc(t)


@fn('numpy.dtype')
def _dtype(M, a, k, st, cx, node):
    d = M.dtype(a[0], st)
    return mk('dtype', d) if d else None


# ------------------------------------------------------------ masked arrays

@fn('numpy.ma.masked_values', 'numpy.ma.masked_equal')
def _masked_values(M, a, k, st, cx, node):
    o = M.arr_of(a[0], st)
    if o is None:
        return None
    v = M.pt(a[1], st)
    m = T.eq(o.term, v)
    if o.mask is not None:
        m = tor(o.mask, m)
    return M.newarr(st, o.term, o.shape, o.dtype, m)


@fn('numpy.ma.masked_where')
def _masked_where(M, a, k, st, cx, node):
    ts, shape, mask, isarr, arrs = align(M, [a[0], a[1]], st)
    m = truth(ts[0])
    if arrs[1] is not None and arrs[1].mask is not None:
        m = tor(m, arrs[1].mask)
    return M.newarr(st, ts[1], shape, arrs[1].dtype if arrs[1] else None, m)


@fn('numpy.ma.masked_invalid')
def _masked_invalid(M, a, k, st, cx, node):
    o = M.arr_of(a[0], st)
    if o is None:
        return None
    return M.newarr(st, o.term, o.shape, o.dtype, T.isnan(o.term))


@fn('numpy.ma.filled')
def _mafilled(M, a, k, st, cx, node):
    return method(M, a[0], 'filled', a[1:], k, st, cx, node)


@fn('numpy.ma.getdata')
def _getdata(M, a, k, st, cx, node):
    o = M.arr_of(a[0], st)
    return M.newarr(st, o.term, o.shape, o.dtype) if o is not None else None


@fn('numpy.ma.getmaskarray', 'numpy.ma.getmask')
def _getmask(M, a, k, st, cx, node):
    o = M.arr_of(a[0], st)
    if o is None:
        return None
    return M.newarr(st, o.mask if o.mask is not None else FALSE, o.shape,
                    'bool')


EWISE['numpy.ma.multiply'] = EWISE['numpy.multiply']
EWISE['numpy.ma.maximum'] = EWISE['numpy.maximum']


# ------------------------------------------------------------ scipy

@fn('scipy.ndimage.convolve')
def _ndconv(M, a, k, st, cx, node):
    o = M.arr_of(a[0], st)
    w = M.arr_of(a[1], st)
    if o is None or w is None or len(a) > 2:
        names = ['input', 'weights', 'output', 'mode', 'cval', 'origin']
        k = dict(k)
        for q, v in enumerate(a[2:], 2):
            k[names[q]] = v
    if o is None or w is None:
        return None
    mode = k.get('mode', string('reflect'))
    cval = k.get('cval', num(0))
    org = k.get('origin', num(0))
    mt = M.ip.term(mode, st)
    if mt is not string('constant'):
        cval = NONE
    x = mk('ndop', 'convolve', M.arrval(o), M.arrval(w), mt,
           M.ip.term(cval, st), M.ip.term(org, st))
    M.ip.event('scipy.ndimage.convolve', a, k, st, node).result = x
    sh = o.shape or M.shape_of_term(M.arrval(o))
    return M.newarr(st, elem(x, *IX[:len(sh)]), sh, 'float')


@fn('scipy.ndimage.sobel')
def _sobel(M, a, k, st, cx, node):
    o = M.arr_of(a[0], st)
    if o is None:
        return None
    ax = arg(a, k, 1, 'axis', num(-1))
    if ax.op == 'num' and ax.args[0] < 0:
        ax = num(ndim_of(o) + ax.args[0])
    mode = k.get('mode', string('reflect'))
    cval = k.get('cval', num(0)) if mode is string('constant') else NONE
    x = mk('ndop', 'sobel', M.arrval(o), ax, mode, M.ip.term(cval, st))
    M.ip.event('scipy.ndimage.sobel', a, k, st, node).result = x
    sh = o.shape or M.shape_of_term(M.arrval(o))
    return M.newarr(st, elem(x, *IX[:len(sh)]), sh, 'float')


@fn('scipy.signal.convolve', 'scipy.signal.convolve2d')
def _sigconv(M, a, k, st, cx, node):
    o, w = M.arr_of(a[0], st), M.arr_of(a[1], st)
    mode = arg(a, k, 2, 'mode', string('full'))
    if o is None or w is None or o.shape is None or w.shape is None:
        return None
    dims = [d for d in w.shape]
    if not all(d.op == 'num' and d.args[0] <= 5 for d in dims) or \
            len(o.shape) != len(dims) or len(dims) > 2:
        x = mk('ndop', 'sigconv', M.arrval(o), M.arrval(w), mode)
        return M.newarr(st, elem(x, *IX[:len(o.shape)]), o.shape, 'float')
    ks = [int(d.args[0]) for d in dims]
    if mode is string('valid'):
        sh = [sub(d, num(q - 1)) for d, q in zip(o.shape, ks)]
        off = [q - 1 for q in ks]
    elif mode is string('same'):
        sh = list(o.shape)
        off = [(q - 1) // 2 for q in ks]
    elif mode is string('full'):
        sh = [add(d, num(q - 1)) for d, q in zip(o.shape, ks)]
        off = [0 for q in ks]
    else:
        return None
    import itertools
    out = num(0)
    for ab in itertools.product(*[range(q) for q in ks]):
        idx = [add(IX[d], num(off[d] - ab[d])) for d in range(len(ks))]
        v = at(o.term, idx)
        if mode is not string('valid'):
            g = []
            for d in range(len(ks)):
                g += [T.le(num(0), idx[d]), T.lt(idx[d], o.shape[d])]
            v = ite(tand(*g), v, num(0))
        out = add(out, mul(at(w.term, [num(q) for q in ab]), v))
    return M.newarr(st, M.simp(out, sh, st), sh, 'float')


@fn('numexpr.evaluate')
def _numexpr(M, a, k, st, cx, node):
    e = M.ip.term(a[0], st)
    if e.op != 'str':
        return None
    ld = k.get('local_dict', arg(a, k, 1, 'local_dict'))
    tree = ast.parse(e.args[0], mode='eval').body
    env = {}
    if isinstance(ld, Ref) and isinstance(st.heap.get(ld.loc), DictObj):
        for kk, vv in st.heap[ld.loc].items.items():
            env[kk.args[0]] = vv

    def ev(x):
        if isinstance(x, ast.Constant):
            return T.const(x.value)
        if isinstance(x, ast.Name):
            if x.id in env:
                return env[x.id]
            return M.ip.getvar(st, cx, x.id, node)
        if isinstance(x, ast.BinOp):
            return M.binop(x.op, ev(x.left), ev(x.right), st, node)
        if isinstance(x, ast.UnaryOp):
            return M.unop(x.op, ev(x.operand), st, node)
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            return M.compare(x.ops[0], ev(x.left), ev(x.comparators[0]), st,
                             node)
        if isinstance(x, ast.Call):
            n = x.func.id
            return call_ext(M, 'numpy.' + n, [ev(y) for y in x.args], {},
                            st, cx, node)
        raise NotImplementedError
    try:
        return ev(tree)
    except NotImplementedError:
        return None


# ------------------------------------------------------------ builtins

@fn('builtins.range')
def _range(M, a, k, st, cx, node):
    ts = [M.ip.term(x, st) for x in a]
    if len(ts) == 1:
        return Range(num(0), ts[0], num(1))
    if len(ts) == 2:
        return Range(ts[0], ts[1], num(1))
    return Range(*ts)


@fn('builtins.len')
def _len(M, a, k, st, cx, node):
    if isinstance(a[0], Ref):
        o = st.heap.get(a[0].loc)
        if isinstance(o, InstObj):
            m = M.ip.class_attr(o.cls, '__len__', st)
            if m is not None:
                return M.ip.call(Bound(m, a[0]), [], {}, st, cx, node)
    return M.length(a[0], st)


@fn('builtins.enumerate')
def _enumerate(M, a, k, st, cx, node):
    start = arg(a, k, 1, 'start', num(0))
    vals = M.concrete(a[0], st)
    if vals is not None:
        return Tup([Tup([add(start, num(q)), v])
                    for q, v in enumerate(vals)])
    s = M.as_seq(a[0], st, node)
    if not isinstance(s, Seq):
        return None
    return Seq(s.n, lambda t: Tup([add(start, t), s.elem(t)]))


@fn('builtins.zip')
def _zip(M, a, k, st, cx, node):
    if not a:
        return Tup([])
    cs = [M.concrete(v, st) for v in a]
    if all(c is not None for c in cs):
        return Tup([Tup(x) for x in zip(*cs)])
    if any(c is not None for c in cs) and not all(
            c is not None for c in cs):
        pass
    ss = [M.as_seq(v, st, node) for v in a]
    if not all(isinstance(s, Seq) for s in ss):
        return None
    n = ss[0].n
    for s in ss[1:]:
        if s.n is not n:
            n = T.tmin(n, s.n)
    return Seq(n, lambda t: Tup([s.elem(t) for s in ss]))


@fn('builtins.map')
def _map(M, a, k, st, cx, node):
    f = a[0]
    if len(a) > 2:
        z = _zip(M, a[1:], {}, st, cx, node)
        if z is None:
            return None
        src, star = z, True
    else:
        src, star = a[1], False
    r = M.ip.alloc(st, ListObj([]))
    return comprehend(M, src, lambda s, v: M.ip.call(
        f, list(v.items) if star else [v], {}, s, cx, node), None, st, cx,
        node, r)


@fn('builtins.filter')
def _filter(M, a, k, st, cx, node):
    r = M.ip.alloc(st, ListObj([]))
    return comprehend(M, a[1], lambda s, v: v, lambda s, v: M.ip.truth(
        v if a[0] is NONE else M.ip.call(a[0], [v], {}, s, cx, node), s),
        st, cx, node, r)


_TARGET = ast.Name(id='$item', ctx=ast.Store())
_TARGET.lineno = _TARGET.col_offset = 0


def comprehend(M, src, value, test, st, cx, node, r):
    ip = M.ip
    from .interp import Ctx
    from .values import FrameObj
    frame = ip.newloc()
    st.heap[frame] = FrameObj({}, cx.frame if cx is not None else None,
                              cx.module if cx is not None else '?')
    c2 = Ctx(cx.func if cx else '?', cx.module if cx else '?', frame, 0)

    def inner(s):
        v = ip.getvar(s, c2, '$item')

        def put(s2):
            M.list_append(s2, r, value(s2, v), node)
            return s2
        if test is None:
            return put(s)
        c = test(s, v)
        return ip.branch(c, s, put, lambda s2: s2)
    out = ip.iterate(src, _TARGET, inner, st, c2, node)
    if out is not None and out is not st:
        st.heap, st.pc = out.heap, out.pc
    return r


def known_keys(M, vals, f, st, node):
    """The known keys of values (Python objects), or None."""
    out = []
    for x in vals:
        t = x if f is None or f is NONE else M.ip.call(
            f, [x], {}, st, None, node)
        ts = M.concrete(t, st) if not (
            isinstance(t, Term) and t.op == 'str') else None
        if ts is not None:
            ts = [M.ip.term(y, st) for y in ts]
            if not all(T.is_const(y) for y in ts):
                return None
            out.append(tuple(T.const_value(y) for y in ts))
            continue
        t = M.ip.term(t, st)
        if not T.is_const(t) or t is T.NAN:
            return None
        out.append(T.const_value(t))
    return out


def known_order(M, vals, k, st, node):
    """The order that sorting puts values in, when it is known."""
    if set(k) - {'key', 'reverse'}:
        return None
    rev = k.get('reverse', T.FALSE)
    if rev not in (T.TRUE, T.FALSE):
        return None
    keys = known_keys(M, vals, k.get('key'), st, node)
    if keys is None:
        return None
    try:
        return sorted(range(len(keys)), key=lambda i: keys[i],
                      reverse=rev is T.TRUE)
    except TypeError:
        return None


@fn('itertools.groupby')
def _groupby(M, a, k, st, cx, node):
    vals = M.concrete(a[0], st)
    if vals is None:
        return None
    f = arg(a, k, 1, 'key', NONE)
    keys = known_keys(M, vals, f, st, node)
    if keys is None:
        return None
    out = []
    for x, q in zip(vals, keys):
        if not out or out[-1][0] != q:
            key = x if f is NONE else M.ip.call(f, [x], {}, st, None, node)
            out.append((q, key, []))
        out[-1][2].append(x)
    return Tup([Tup([key, Tup(xs)]) for q, key, xs in out])


@fn('builtins.id')
def _id(M, a, k, st, cx, node):
    v = a[0]
    if isinstance(v, Ref):
        key = ('ref', v.loc)
    elif isinstance(v, Term) and T.is_const(v):
        key = v
    else:
        return None
    ids = M.__dict__.setdefault('ids', {})
    return num(ids.setdefault(key, 140000000000000 + 64 * len(ids)))


@fn('numpy.argmax', 'numpy.argmin', 'numpy.nanargmax', 'numpy.nanargmin')
def _argmax(M, a, k, st, cx, node):
    ax = axis_of(M, arg(a, k, 1, 'axis'), st)
    o = M.arr_of(a[0], st) if a else None
    if o is not None and isinstance(ax, list) and o.shape is not None \
            and not isinstance(o, SelObj) and o.mask is None and \
            len(a) <= 2 and not set(k) - {'axis', 'keepdims'}:
        q = ax[0] % len(o.shape)
        n = o.shape[q]
        name = M.called or ''
        if n.op != 'num' or not 0 < n.args[0] <= 16 or 'nan' in name:
            return None
        best = which = None
        keep = k.get('keepdims') is TRUE
        low = 'min' in name
        for i in range(int(n.args[0])):
            # the other axes close up, unless the dimension is kept
            back = {IX[q]: num(i)}
            if not keep:
                back.update({IX[p]: IX[p - 1]
                             for p in range(q + 1, len(o.shape))})
            x = subst(o.term, back)
            if best is None:
                best, which = x, num(0)
                continue
            c = T.lt(x, best) if low else T.lt(best, x)
            c = tand(tor(c, T.isnan(x)), tnot(T.isnan(best)))
            which, best = ite(c, num(i), which), ite(c, x, best)
        sh = [num(1) if p == q and keep else d
              for p, d in enumerate(o.shape) if keep or p != q]
        return M.newarr(st, which, sh, 'int') if sh else which
    if len(a) != 1 or k:
        return None
    vals = M.concrete(a[0], st)
    if not vals:
        return None
    ts = [M.ip.term(x, st) for x in vals]
    if not all(t.op == 'num' for t in ts):
        return None
    best = (max if 'max' in _callname(M, node) else min)(
        t.args[0] for t in ts)
    return num([t.args[0] for t in ts].index(best))


@fn('numpy.take_along_axis')
def _take_along(M, a, k, st, cx, node):
    o, i = M.arr_of(a[0], st), M.arr_of(arg(a, k, 1, 'indices'), st)
    ax = axis_of(M, arg(a, k, 2, 'axis'), st)
    if o is None or i is None or not isinstance(ax, list) or \
            o.shape is None or i.shape is None or \
            len(o.shape) != len(i.shape) or o.mask is not None or \
            isinstance(o, SelObj) or isinstance(i, SelObj):
        return None
    q = ax[0] % len(o.shape)
    for p, (d, e) in enumerate(zip(o.shape, i.shape)):
        if p != q and e is not d:
            return None
    n = M.norm_index(i.term, o.shape[q], st)
    return M.newarr(st, subst(o.term, {IX[q]: n}), i.shape, o.dtype)


@fn('builtins.list', 'builtins.sorted', 'builtins.tuple')
def _list(M, a, k, st, cx, node):
    name = _callname(M, node)
    if not a:
        return M.ip.alloc(st, ListObj([])) if name != 'tuple' else Tup([])
    v = a[0]
    if isinstance(v, Choice):
        v = M.ip.refine(v, st)
    if name == 'sorted':
        vals = M.concrete(v, st)
        if vals is not None and k:
            order = known_order(M, vals, k, st, node)
            if order is not None:
                return M.ip.alloc(st, ListObj([('e', vals[i])
                                               for i in order]))
        if vals is not None and all(
                isinstance(x, Term) and T.is_const(x) for x in vals) and \
                not k:
            vs = sorted(T.const_value(x) for x in vals)
            return M.ip.alloc(st, ListObj([('e', T.const(x))
                                           for x in vs]))
        if vals is not None and not k:
            keys = [x.items[0] if isinstance(x, Tup) and x.items else None
                    for x in vals]
            if all(isinstance(x, Term) and T.is_const(x) for x in keys) and \
                    len(set(keys)) == len(keys) and len(
                        {x.op for x in keys}) < 2:
                return M.ip.alloc(st, ListObj([('e', x) for x in sorted(
                    vals, key=lambda x: T.const_value(x.items[0]))]))
        t = mk('sorted', M.ip.term(v, st), *kwterms(M, k, st))
        return M.ip.alloc(st, ListObj([('t', t)]))
    if name == 'tuple':
        vals = M.concrete(v, st)
        if vals is not None:
            return Tup(vals)
    o = M.operand(v, st)
    if o is not None and o.shape and len(o.shape) > 1:
        vals = M.concrete(v, st)
        if vals is None:
            return None
    return M.ip.alloc(st, ListObj(M.list_segs(v, st, node)))


@fn('builtins.set', 'builtins.frozenset')
def _set(M, a, k, st, cx, node):
    if not a:
        return M.ip.alloc(st, ListObj([], True))
    segs = M.list_segs(a[0], st, node)
    return M.ip.alloc(st, ListObj(segs, True))


@fn('builtins.dict', 'collections.OrderedDict')
def _dict(M, a, k, st, cx, node):
    items = {}
    if a:
        v = a[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), DictObj):
            items.update(st.heap[v.loc].items)
        else:
            vals = M.concrete(v, st)
            if vals is None:
                return None
            for x in vals:
                kv = M.concrete(x, st)
                if kv is None or len(kv) != 2:
                    return None
                items[M.ip.term(kv[0], st)] = kv[1]
    for n, v in k.items():
        items[string(n)] = v
    return M.ip.alloc(st, DictObj(items))


@fn('collections.defaultdict')
def _defaultdict(M, a, k, st, cx, node):
    r = _dict(M, a[1:], k, st, cx, node)
    if r is None:
        return None
    d = st.heap[r.loc]
    st.heap[r.loc] = DictObj(d.items, None if not a or a[0] is NONE
                             else a[0])
    return r


@fn('builtins.str')
def _str(M, a, k, st, cx, node):
    if not a:
        return string('')
    return M.str_of(a[0], st)


@fn('builtins.repr', 'builtins.ascii')
def _repr(M, a, k, st, cx, node):
    return mk('tostr', mk('repr', M.ip.term(a[0], st)))


@fn('builtins.format')
def _format(M, a, k, st, cx, node):
    return M.format_spec(a[0], M.ip.term(a[1], st) if len(a) > 1
                         else string(''), st)


@fn('builtins.min', 'builtins.max')
def _minmax(M, a, k, st, cx, node):
    name = _callname(M, node)
    f = T.tmin if name == 'min' else T.tmax
    if k:
        vals = M.concrete(a[0], st) if len(a) == 1 else list(a)
        if vals is None or set(k) - {'key', 'default'}:
            return None
        if not vals:
            return k.get('default')
        keys = known_keys(M, vals, k.get('key'), st, node)
        if keys is None:
            return None
        return vals[keys.index((max if name == 'max' else min)(keys))]
    if len(a) == 1:
        vals = M.concrete(a[0], st)
        if vals is None:
            o = M.arr_of(a[0], st)
            if o is not None and o.shape is not None and len(o.shape) == 1:
                return reduction(name)(M, a, {}, st, cx, node)
            return None
        a = vals
    if any(M.operand(x, st) is not None for x in a):
        return None
    ts = [M.ip.term(x, st) for x in a]
    if not ts:
        return None
    return f(*ts)


@fn('builtins.abs')
def _abs(M, a, k, st, cx, node):
    return elementwise(M, EWISE['numpy.abs'], a, {}, st, node)


@fn('builtins.sum')
def _sum(M, a, k, st, cx, node):
    init = arg(a, k, 1, 'start', num(0))
    vals = M.concrete(a[0], st)
    if vals is not None:
        r = init
        for v in vals:
            r = M.binop(ast.Add(), r, v, st, node)
        return r
    o = M.operand(a[0], st)
    if o is not None and o.shape and len(o.shape) == 1:
        return add(M.ip.term(init, st), reduction('sum')(
            M, [a[0]], {}, st, cx, node))
    r = M.ip.term(init, st)
    if not T.numericish(r):
        return None
    for s in M.list_segs(a[0], st, node):
        if s[0] == 'e':
            r = add(r, M.ip.term(s[1], st))
        elif s[0] == 'c':
            b = ite(s[3], M.ip.term(s[4], st), num(0))
            for v, n in reversed(list(zip(s[1], s[2]))):
                b = T.total(v, n, b)
            r = add(r, b)
        else:
            t = s[1]
            u = fresh('u')
            r = add(r, T.total(u, M.length(t, st), item(t, u)))
    return r


@fn('builtins.any', 'builtins.all')
def _anyall(M, a, k, st, cx, node):
    isany = _callname(M, node) == 'any'
    vals = M.concrete(a[0], st)
    if vals is not None:
        ts = [M.ip.truth(v, st) for v in vals]
        return tor(*ts) if isany else tand(*ts)
    out = []
    for s in M.list_segs(a[0], st, node):
        if s[0] == 'e':
            out.append(M.ip.truth(s[1], st))
            if not isany:
                out[-1] = tnot(out[-1])
        elif s[0] == 'c':
            b = M.ip.truth(s[4], st)
            b = tand(s[3], b if isany else tnot(b))
            for v, n in reversed(list(zip(s[1], s[2]))):
                b = fold_any(v, n, b)
            out.append(b)
        else:
            return None
    r = tor(*out)
    return r if isany else tnot(r)


@fn('builtins.round')
def _round(M, a, k, st, cx, node):
    return _around(M, a, k, st, cx, node)


@fn('builtins.divmod')
def _divmod(M, a, k, st, cx, node):
    return Tup([M.binop(ast.FloorDiv(), a[0], a[1], st, node),
                M.binop(ast.Mod(), a[0], a[1], st, node)])


@fn('builtins.pow')
def _pow(M, a, k, st, cx, node):
    return M.binop(ast.Pow(), a[0], a[1], st, node)


@fn('builtins.bool')
def _bool(M, a, k, st, cx, node):
    return M.ip.truth(a[0], st) if a else FALSE


@fn('builtins.reversed')
def _reversed(M, a, k, st, cx, node):
    vals = M.concrete(a[0], st)
    if vals is not None:
        return Tup(list(reversed(vals)))
    s = M.as_seq(a[0], st, node)
    if not isinstance(s, Seq):
        return None
    return Seq(s.n, lambda t: s.elem(sub(sub(s.n, num(1)), t)))


@fn('builtins.iter')
def _iter(M, a, k, st, cx, node):
    return a[0]


@fn('builtins.isinstance')
def _isinstance(M, a, k, st, cx, node):
    v, c = a
    cs = list(c.items) if isinstance(c, Tup) else [c]
    out = []
    for x in cs:
        if isinstance(x, Cls):
            if isinstance(v, Ref) and isinstance(
                    st.heap.get(v.loc), InstObj):
                k1 = st.heap[v.loc].cls
                out.append(TRUE if k1.uid == x.uid or any(
                    isinstance(b, Cls) and b.uid == x.uid
                    for b in k1.bases) else FALSE)
            else:
                out.append(FALSE)
            continue
        if isinstance(x, Term) and x.op == 'ext':
            n = x.args[0].split('.')[-1]
            if isinstance(v, (Tup, Range, Seq)):
                out.append(TRUE if n == 'tuple' and isinstance(v, Tup)
                           else FALSE)
            elif isinstance(v, Ref):
                o = st.heap.get(v.loc)
                out.append(TRUE if (
                    n == 'ndarray' and isinstance(o, ArrObj)) or (
                    n == 'list' and isinstance(o, ListObj)) or (
                    n == 'dict' and isinstance(o, DictObj)) else FALSE)
            elif isinstance(v, Choice):
                return None
            else:
                out.append(M.isinst(v, n))
            continue
        return mk('isinstance', M.ip.term(v, st), M.ip.term(c, st))
    return tor(*out)


@fn('builtins.issubclass')
def _issub(M, a, k, st, cx, node):
    return None


@fn('builtins.type')
def _type(M, a, k, st, cx, node):
    v = a[0]
    if len(a) > 1:
        return None
    if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), InstObj):
        return st.heap[v.loc].cls
    return mk('typeof', M.ip.term(v, st))


@fn('builtins.globals')
def _globals(M, a, k, st, cx, node):
    return mk('globals', cx.module if cx is not None else
              M.ip.callstack[-1][0])


@fn('builtins.getattr')
def _getattr(M, a, k, st, cx, node):
    n = M.ip.term(a[1], st)
    if n.op == 'str':
        if isinstance(a[0], Mod):
            f = M.ip._frame(st, a[0].frame)
            if n.args[0] not in f.vars and len(a) > 2:
                return a[2]
        v = M.ip.get_attr(a[0], n.args[0], st, cx, node)
        return v
    if isinstance(a[0], Mod):
        return M.globals_choice(a[0].name, n, st, node)
    return mk('call', 'builtins.getattr', M.ip.term(a[0], st), n)


@fn('builtins.setattr')
def _setattr(M, a, k, st, cx, node):
    n = M.ip.term(a[1], st)
    if n.op == 'str':
        M.ip.set_attr(a[0], n.args[0], a[2], st, node)
        return NONE
    return None


@fn('builtins.hasattr', 'builtins.callable')
def _hasattr(M, a, k, st, cx, node):
    return mk('call', 'builtins.' + _callname(M, node),
              *[M.ip.term(x, st) for x in a])


@fn('builtins.slice')
def _slice(M, a, k, st, cx, node):
    if len(a) == 1:
        return SliceV(NONE, a[0], NONE)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)


@fn('numpy.s_', 'numpy.index_exp')
def _s(M, a, k, st, cx, node):
    return None


@fn('builtins.property', 'builtins.staticmethod', 'builtins.classmethod')
def _property(M, a, k, st, cx, node):
    return Partial(mk('ext', 'builtins.' + _callname(M, node))
                   if isinstance(node, ast.Call) else
                   mk('ext', 'builtins.property'), tuple(a), {})


@fn('builtins.next')
def _next(M, a, k, st, cx, node):
    vals = M.concrete(a[0], st)
    if vals:
        return vals[0]
    segs = M.list_segs(a[0], st, node)
    if segs and segs[0][0] == 'e':
        return segs[0][1]
    return None


# ------------------------------------------------------------ functools

@fn('functools.reduce')
def _reduce(M, a, k, st, cx, node):
    ip = M.ip
    vals = M.concrete(a[1], st)
    if vals is not None:
        vals = list(vals)
        acc = a[2] if len(a) > 2 else vals.pop(0)
        for v in vals:
            acc = ip.call(a[0], [acc, v], {}, st, cx, node)
        return acc
    # symbolic: as a loop over the sequence
    from .interp import Ctx
    from .values import FrameObj
    if len(a) < 3:
        return ip.havoc(node, 'reduce of an unknown sequence')
    frame = ip.newloc()
    st.heap[frame] = FrameObj({'$acc': NONE}, cx.frame, cx.module)
    c2 = Ctx(cx.func, cx.module, frame, 0)
    ip._setvar(st, frame, 'acc', a[2])
    s = M.as_seq(a[1], st, node)
    if not isinstance(s, Seq):
        return ip.havoc(node, 'reduce of an unknown sequence')

    def body(s2, t):
        acc = ip.getvar(s2, c2, 'acc')
        v = ip.call(a[0], [acc, s.elem(t)], {}, s2, cx, node)
        ip._setvar(s2, frame, 'acc', v)
        return s2
    out = ip.loop(s.n, None, None, body, st, c2, node)
    st.heap, st.pc = out.heap, out.pc
    return ip.getvar(st, c2, 'acc')


@fn('functools.partial')
def _partial(M, a, k, st, cx, node):
    return Partial(a[0], tuple(a[1:]), dict(k))


@fn('functools.wraps')
def _wraps(M, a, k, st, cx, node):
    return Partial(mk('ext', '$wraps'), (a[0],), {})


@fn('$wraps')
def _wraps2(M, a, k, st, cx, node):
    w, f = a
    if isinstance(f, Func) and isinstance(w, Func):
        f.wrapped = w
    return f


@fn('functools.lru_cache', 'functools.cache')
def _lru(M, a, k, st, cx, node):
    if a and isinstance(a[0], Func):
        return a[0]
    return Partial(mk('ext', '$ident'), (), {})


@fn('$ident')
def _ident(M, a, k, st, cx, node):
    return a[0]


@fn('itertools.product')
def _product(M, a, k, st, cx, node):
    if k:
        return None
    cs = [M.concrete(v, st) for v in a]
    if all(c is not None for c in cs):
        import itertools
        xs = list(itertools.product(*cs))
        if len(xs) <= 200:
            return Tup([Tup(x) for x in xs])
    ss = [M.as_seq(v, st, node) for v in a]
    if not all(isinstance(s, Seq) for s in ss):
        return None
    n = num(1)
    for s in ss:
        n = mul(n, s.n)
    return Seq(n, lambda t: _prod_elem(ss, t), None, tuple(ss))


@fn('numpy.ndindex')
def _ndindex(M, a, k, st, cx, node):
    dims = M.concrete(a[0], st) if len(a) == 1 else None
    if dims is None:
        dims = list(a)
    dims = [M.ip.term(x, st) for x in dims]
    return _product(M, [Range(num(0), x, num(1)) for x in dims], {}, st, cx,
                    node)


def _prod_elem(ss, t):
    out = []
    for s in reversed(ss[1:]):
        out.append(s.elem(T.mod(t, s.n)))
        t = T.floordiv(t, s.n)
    out.append(ss[0].elem(t))
    return Tup(list(reversed(out)))


@fn('itertools.chain')
def _chain(M, a, k, st, cx, node):
    segs = []
    for v in a:
        segs.extend(M.list_segs(v, st, node))
    return M.ip.alloc(st, ListObj(segs))


@fn('itertools.chain.from_iterable')
def _chainfi(M, a, k, st, cx, node):
    vals = M.concrete(a[0], st)
    if vals is not None:
        return _chain(M, vals, {}, st, cx, node)
    r = M.ip.alloc(st, ListObj([]))
    segs = M.list_segs(a[0], st, node)
    out = []
    for s in segs:
        if s[0] == 'c':
            inner = M.list_segs(s[4], st, node)
            if len(inner) == 1 and inner[0][0] == 'c':
                x = inner[0]
                out.append(('c', s[1] + x[1], s[2] + x[2],
                            tand(s[3], x[3]), x[4]))
                continue
            lt = M.ip.list_term(ListObj(inner), st)
            if len(s[1]) == 1 and s[3] is TRUE:
                out.append(('t', T.close('flat', s[1], (s[2][0], lt))))
                continue
            return None
        elif s[0] == 'e':
            out.extend(M.list_segs(s[1], st, node))
        else:
            u = fresh('u')
            out.append(('t', T.close('flat', (u,), (
                M.length(s[1], st), item(s[1], u)))))
    st.heap[r.loc] = ListObj(out)
    return r


@fn('itertools.count')
def _count(M, a, k, st, cx, node):
    start = arg(a, k, 0, 'start', num(0))
    step = arg(a, k, 1, 'step', num(1))
    return Seq(T.INF, lambda t: add(start, mul(t, step)))


@fn('itertools.islice')
def _islice(M, a, k, st, cx, node):
    if len(a) == 2:
        return M.getitem(a[0], SliceV(NONE, a[1], NONE), st, node)
    return M.getitem(a[0], SliceV(*(list(a[1:]) + [NONE] * (4 - len(a)))),
                     st, node)


# ------------------------------------------------------------ paths

@fn('os.path.join')
def _join(M, a, k, st, cx, node):
    return T.pjoin(*[M.path_of(x, st) for x in a])


@fn('os.path.basename')
def _basename(M, a, k, st, cx, node):
    return T.basename(M.path_of(a[0], st))


@fn('os.path.dirname')
def _dirname(M, a, k, st, cx, node):
    return T.dirname(M.path_of(a[0], st))


@fn('os.path.split')
def _split(M, a, k, st, cx, node):
    p = M.path_of(a[0], st)
    return Tup([T.dirname(p), T.basename(p)])


@fn('os.path.splitext')
def _splitext(M, a, k, st, cx, node):
    s, e = T.splitext(M.path_of(a[0], st))
    return Tup([s, e])


@fn('os.fspath', 'os.path.normpath', 'pathlib.PurePath', 'os.fsdecode')
def _fspath(M, a, k, st, cx, node):
    return M.path_of(a[0], st)


@fn('pathlib.Path')
def _path(M, a, k, st, cx, node):
    return mk('path', T.pjoin(*[M.path_of(x, st) for x in a]))


# ------------------------------------------------------------ misc

@fn('pandas.read_csv')
def _read_csv(M, a, k, st, cx, node):
    ip = M.ip
    t = mk('table', ip.term(a[0], st), *kwterms(M, k, st))
    ip.event('pandas.read_csv', a, k, st, node).result = t
    ip.raise_point(st, 'pandas.read_csv', OPEN_ERRORS['pandas.read_csv'],
                   ip.term(a[0], st))
    return t


def window(M, ds, a, k, st):
    """Arguments of Band.ReadAsArray; none for the whole raster."""
    names = ('xoff', 'yoff', 'win_xsize', 'win_ysize')
    if len(a) > 4 or set(k) - set(names):
        return a, k
    given = dict(zip(names, a))
    if set(given) & set(k):
        return a, k
    given.update(k)
    whole = {'xoff': num(0), 'yoff': num(0),
             'win_xsize': mk('attr', ds, 'RasterXSize'),
             'win_ysize': mk('attr', ds, 'RasterYSize')}
    ts = {n: M.ip.term(v, st) for n, v in given.items()}
    ts = {n: whole[n] if v is NONE else v for n, v in ts.items()}
    if all(ts.get(n, whole[n]) is whole[n] for n in names):
        return [], {}
    return [ts.get(n, whole[n]) for n in names], {}


@fn('gdal.BandReadAsArray')
def _bandread(M, a, k, st, cx, node):
    return method(M, a[0], 'ReadAsArray', a[1:], k, st, cx, node)


@fn('gdal.BandWriteArray')
def _bandwrite(M, a, k, st, cx, node):
    return method(M, a[0], 'WriteArray', a[1:], k, st, cx, node)


@fn('sys.exit', 'os._exit', 'builtins.exit', 'builtins.quit')
def _exit(M, a, k, st, cx, node):
    from .interp import Dead
    M.ip.event('sys.exit', a, k, st, node)
    M.ip.do_raise('SystemExit', st, node, cx)
    raise Dead()


@fn('builtins.super')
def _super(M, a, k, st, cx, node):
    return mk('super')


@fn('builtins.object')
def _object(M, a, k, st, cx, node):
    return mk('obj', M.ip.newloc())


@fn('copy.copy', 'copy.deepcopy')
def _copy(M, a, k, st, cx, node):
    v = a[0]
    if isinstance(v, Ref):
        o = st.heap.get(v.loc)
        if isinstance(o, ArrObj):
            return method(M, v, 'copy', [], {}, st, cx, node)
        if isinstance(o, (ListObj, DictObj)):
            return M.ip.alloc(st, o)
    return v


@fn('logging.getLogger')
def _getlogger(M, a, k, st, cx, node):
    return mk('logger', 'logging.getLogger')


# ------------------------------------------------------------ methods

def is_created(t):
    return t.op == 'eff' and t.args[0] == '.Create'


HARMLESS = {'.GetRasterBand', '.SetDescription', '.SetNoDataValue', '.AddBand',
            '.SetGeoTransform', '.SetProjection', '.SetMetadata', '.Create',
            '.SetMetadataItem', '.ComputeStatistics', '.ReadAsArray',
            '.SetSpatialRef', '.FlushCache', '.GetGeoTransform',
            '.GetProjection', '.GetNoDataValue'}


def untouched(M, band):
    """A band of a raster made in memory, before anything is written to it:
    (rows, columns); None when it is not."""
    ds = band.args[0]
    a = ds.args[3:]
    if len(a) < 4 or repr(a[0]) != repr(mk('call', 'gdal.GetDriverByName',
                                           T.string('MEM'))):
        return None
    if any(x.op == 'kw' for x in a):
        return None
    for e in M.ip.trace:
        if e.name not in HARMLESS and any(
                isinstance(t, Term) and (T.occurs(band, t) or
                                         T.occurs(ds, t))
                for t in e.terms or ()):
            return None
    return a[3], a[2]


def band_there(M, ds, number, st, node):
    """Asking for a band a raster made here does not have is an error."""
    a = ds.args[3:]
    if number.op != 'num' or any(x.op == 'kw' for x in a):
        return
    n = a[4] if len(a) > 4 else num(1)
    if n.op != 'num':
        return
    more = sum(1 for e in M.ip.trace if e.name == '.AddBand' and
               e.terms and e.terms[0] is ds)
    if not 1 <= number.args[0] <= n.args[0] + more:
        M.ip.fails('RuntimeError', 'band %s of a raster with %s' % (
            number.args[0], n.args[0] + more), st, node)


def method(M, o, name, a, k, st, cx, node):
    ip = M.ip
    if isinstance(o, Choice):
        o = ip.refine(o, st)
    if isinstance(o, Choice):
        return ip.call(Choice(o.cond, Method(o.a, name), Method(o.b, name)),
                       a, k, st, cx, node)
    if isinstance(o, Ref):
        ob = st.heap.get(o.loc) or ip.base.heap.get(o.loc)
        if isinstance(ob, ListObj):
            r = list_method(M, o, ob, name, a, k, st, cx, node)
            if r is not None:
                return r
        elif isinstance(ob, DictObj):
            r = dict_method(M, o, ob, name, a, k, st, cx, node)
            if r is not None:
                return r
        elif isinstance(ob, ArrObj):
            r = arr_method(M, o, ip.arr(st, o), name, a, k, st, cx, node)
            if r is not None:
                return r
        elif isinstance(ob, InstObj):
            r = inst_method(M, o, ob, name, a, k, st, cx, node)
            if r is not None:
                return r
        return effect(M, '.' + name, a, k, st, node, recv=o)
    if isinstance(o, Tup):
        if name in ('index', 'count'):
            vals = o.items
            for q, v in enumerate(vals):
                pass
        lst = ip.alloc(st, ListObj([('e', x) for x in o.items]))
        r = list_method(M, lst, st.heap[lst.loc], name, a, k, st, cx, node)
        if r is not None:
            return r
    if isinstance(o, Term):
        if o.op == 'ite' and kind(o) not in ('str',) and \
                (name not in PURE_METHODS or (
                    name in ('GetRasterBand', 'ReadAsArray') and
                    T.atoms(o, is_created))):
            return ip.call(Choice(o.args[0], Method(o.args[1], name),
                                  Method(o.args[2], name)), a, k, st, cx,
                           node)
        if o.op == 'super':
            return NONE
        if o.op == 'unbound':
            ip.event('$callunbound', [o], {}, st, node)
            return mk('unbound', 'call')
        if o.op == 'ext':
            return call_ext(M, M.canon(o.args[0] + '.' + name), a, k, st, cx,
                            node)
        if o.op in ('logger',) or (name in LOGGING_METHODS and
                                   o.op in ('ext', 'attr') and 'log' in
                                   repr(o).lower()):
            return NONE
        if kind(o) == 'str' or (name in STR_ONLY and o.op in (
                'item', 'call', 'cfg', 'mcall', 'cell', 'sym', 'attr',
                'eff')):
            r = str_method(M, o, name, a, k, st, cx, node)
            if r is not None:
                return r
        if o.op == 'path':
            r = path_method(M, o, name, a, k, st, cx, node)
            if r is not None:
                return r
        if o.op in ('table', 'col', 'row', 'attr', 'item') and \
                name in ('iterrows', 'itertuples', 'to_dict', 'items',
                         'to_numpy', 'iteritems', 'copy', 'get', 'astype',
                         'tolist', 'keys'):
            r = table_method(M, o, name, a, k, st, cx, node)
            if r is not None:
                return r
        if M.arraylike(o) or o.op in ('col',):
            x = M.arr_of(o, st)
            if x is not None:
                r = arr_method(M, o, x, name, a, k, st, cx, node)
                if r is not None:
                    return r
        if o is COMM or (o.op == 'sym' and T.flag(o, 'comm')):
            if M.scripted is not None:
                r = M.scripted.call(o, name, a, k, st, node)
                if r is not None:
                    return r
            if name in ('Get_rank', 'Get_size'):
                return M.attr(o, name[4:], st, node)
            if name in ('Barrier',):
                name = 'barrier'
            if name in ('Scatter', 'Gather'):
                pass
        if o.op == 'nonzero' and name in ('nonzero',):
            return o
        if name == 'tolist' and o.op == 'call':
            return o
        if name == 'size' or name == 'sort':
            pass
        if name == 'ReadAsArray' and o.op == 'mcall' and \
                o.args[1] == 'GetRasterBand':
            a, k = window(M, o.args[0], a, k, st)
        if name == 'ReadAsArray' and not a and not k and \
                ('raster', o) in st.heap:
            w = st.heap[('raster', o)]
            return M.newarr(st, w.term, w.shape, w.dtype)
        if name == 'GetRasterBand' and is_created(o) and len(a) == 1:
            band_there(M, o, ip.term(a[0], st), st, node)
        if name == 'ReadAsArray' and not a and not k and \
                o.op == 'mcall' and o.args[1] == 'GetRasterBand' and \
                is_created(o.args[0]) and untouched(M, o):
            ip.event('.ReadAsArray', a, k, st, node, recv=o)
            return M.newarr(st, num(0), untouched(M, o), 'float')
        if name == 'Fill' and len(a) == 1 and not k and \
                o.op == 'mcall' and is_created(o.args[0]):
            w = untouched(M, o)
            if w is not None:
                st.heap[('raster', o)] = ArrObj(ip.term(a[0], st), w,
                                                'float')
        if name == 'WriteArray' and len(a) == 1 and not k and \
                o.op == 'mcall' and is_created(o.args[0]):
            w = M.arr_of(a[0], st)
            if w is not None:
                st.heap[('raster', o)] = ArrObj(w.term, w.shape, w.dtype)
        if name == 'TransformPoint' and M.geographic and \
                o.op == 'call' and \
                o.args[0] == 'osr.CoordinateTransformation' and \
                len(o.args) == 3 and o.args[2].op == 'mcall' and \
                o.args[2].args[0] is o.args[1] and \
                o.args[2].args[1] == 'CloneGeogCS' and len(a) in (2, 3):
            return Tup(list(a) + [num(0)] * (3 - len(a)))
        if name in PURE_METHODS:
            r = mk('mcall', o, name, *[term_of(M, x, st) for x in a],
                   *kwterms(M, k, st))
            ip.event('.' + name, a, k, st, node, recv=o).result = r
            if name == 'ReadAsArray':
                w = M.arr_of(r, st)
                if w is not None:
                    return M.newarr(st, w.term, w.shape, w.dtype)
            return r
        r = effect(M, '.' + name, a, k, st, node, recv=o)
        exc = OPEN_ERRORS.get('.' + name)
        if exc:
            ip.raise_point(st, '.' + name, exc, o)
        return r
    if isinstance(o, Func) or isinstance(o, Partial):
        return effect(M, '.' + name, a, k, st, node, recv=o)
    if isinstance(o, (Range, Seq)):
        if name == 'index':
            return ip.havoc(node, 'index of a range')
    return effect(M, '.' + name, a, k, st, node, recv=o)


STR_ONLY = {'format', 'split', 'lower', 'upper', 'strip', 'startswith',
            'endswith', 'rsplit', 'lstrip', 'rstrip', 'partition', 'find',
            'rpartition', 'splitlines'}


def str_method(M, o, name, a, k, st, cx, node):
    ip = M.ip
    if name == 'format' and o.op == 'str':
        return M.str_format(o.args[0], a, k, st)
    if name == 'join':
        vals = M.concrete(a[0], st)
        if vals is None:
            return mk('tostr', mk('join', o, ip.term(a[0], st)))
        parts = []
        for q, v in enumerate(vals):
            if q:
                parts.append(o)
            parts.append(M.str_of(v, st))
        return T.cat(*parts)
    ts = [ip.term(x, st) for x in a]
    if o.op == 'str' and all(T.is_const(t) for t in ts) and not k:
        try:
            v = getattr(o.args[0], name)(*[T.const_value(t) for t in ts])
        except Exception:
            return None
        return pyvalue(M, v, st)
    if name in ('lower', 'upper'):
        if o.op == 'ite':
            return ite(o.args[0],
                       str_method(M, o.args[1], name, a, k, st, cx, node),
                       str_method(M, o.args[2], name, a, k, st, cx, node))
        if o.op == 'cat':
            return T.cat(*[str_method(M, p, name, a, k, st, cx, node)
                           for p in o.args])
        return mk(name, o)
    if o.op == 'ite' and name in ('find', 'startswith', 'endswith',
                                  'index'):
        x = str_method(M, o.args[1], name, a, k, st, cx, node)
        y = str_method(M, o.args[2], name, a, k, st, cx, node)
        if isinstance(x, Term) and isinstance(y, Term):
            return ite(o.args[0], x, y)
    if name == 'endswith' and o.op == 'cat' and ts and ts[0].op == 'str' \
            and o.args[-1].op == 'str' and \
            len(o.args[-1].args[0]) >= len(ts[0].args[0]):
        return T.TRUE if o.args[-1].args[0].endswith(ts[0].args[0]) \
            else FALSE
    if name in ('removesuffix',) and o.op == 'cat' and \
            o.args[-1].op == 'str' and ts[0].op == 'str' and \
            o.args[-1].args[0].endswith(ts[0].args[0]):
        n = len(ts[0].args[0])
        return T.cat(*(o.args[:-1] + (string(o.args[-1].args[0][:-n]),))) \
            if n else o
    if name == 'replace' and ts[0] is ts[1]:
        return o
    if name in ('split', 'rsplit') and len(ts) >= 1 and \
            ts[0].op == 'str':
        return mk('split', o, ts[0], *([string(name)] + ts[1:]
                                       if len(ts) > 1 else []))
    if name in ('strip', 'lstrip', 'rstrip', 'replace', 'title', 'zfill',
                'removesuffix', 'removeprefix', 'capitalize', 'ljust',
                'rjust'):
        return mk('tostr', mk('strop', name, o, *ts))
    if name in ('find', 'rfind', 'index', 'count', 'rindex'):
        return mk('trunc', mk('strop', name, o, *ts))
    if name in ('partition', 'rpartition', 'splitlines'):
        return mk('strop', name, o, *ts)
    if name in ('startswith', 'endswith', 'isdigit'):
        return truth(mk('strop', name, o, *ts))
    if name == 'encode':
        return mk('mcall', o, 'encode', *ts)
    return None


def pyvalue(M, v, st):
    if isinstance(v, (list,)):
        return M.ip.alloc(st, ListObj([('e', pyvalue(M, x, st))
                                       for x in v]))
    if isinstance(v, tuple):
        return Tup([pyvalue(M, x, st) for x in v])
    return T.const(v)


def path_method(M, o, name, a, k, st, cx, node):
    p = o.args[0]
    if name == 'joinpath':
        return mk('path', T.pjoin(p, *[M.path_of(x, st) for x in a]))
    if name == 'exists':
        return call_ext(M, 'os.path.exists', [p], {}, st, cx, node)
    if name == 'is_dir':
        return call_ext(M, 'os.path.isdir', [p], {}, st, cx, node)
    if name == 'is_file':
        return call_ext(M, 'os.path.isfile', [p], {}, st, cx, node)
    if name == 'unlink':
        return effect(M, 'os.remove', [p], {}, st, node)
    if name == 'mkdir':
        return effect(M, 'os.makedirs', [p], k, st, node)
    if name == 'glob':
        r = call_ext(M, 'glob.glob', [T.pjoin(p, M.path_of(a[0], st))], {},
                     st, cx, node)
        return r
    if name == 'with_suffix':
        return mk('path', T.cat(T.splitext(p)[0], M.ip.term(a[0], st)))
    if name in ('resolve', 'absolute'):
        return mk('path', mk('call', 'os.path.realpath', p))
    if name == 'as_posix':
        return p
    return None


def table_method(M, o, name, a, k, st, cx, node):
    if name == 'iterrows' and o.op == 'table':
        return Seq(mk('len', o), lambda t: Tup([mk('cell', o, t, '$index'),
                                                mk('row', o, t)]))
    if name == 'itertuples' and o.op == 'table':
        return Seq(mk('len', o), lambda t: mk('row', o, t))
    if name == 'to_dict' and o.op == 'table':
        orient = arg(a, k, 0, 'orient')
        if orient is not None and M.ip.term(orient, st) in (
                string('records'),):
            return Seq(mk('len', o), lambda t: mk('row', o, t))
        return None
    if name in ('to_numpy', 'copy', 'tolist') and o.op in ('col', 'table'):
        return o
    if name == 'astype' and o.op == 'col':
        return o
    if name in ('items', 'iteritems') and o.op == 'col':
        return Seq(mk('len', o.args[0]), lambda t: Tup([
            t, mk('cell', o.args[0], t, o.args[1])]))
    if name == 'get' and o.op == 'row':
        return item(o, M.ip.term(a[0], st))
    return None


def list_method(M, o, ob, name, a, k, st, cx, node):
    ip = M.ip
    if name in ('append', 'add'):
        M.list_append(st, o, a[0], node)
        return NONE
    if name in ('extend', 'update'):
        for x in a:
            M.list_extend(st, o, x, node)
        return NONE
    if name == 'copy':
        return ip.alloc(st, ob)
    if name == 'clear':
        st.heap[o.loc] = ListObj([], ob.distinct)
        return NONE
    if name == 'insert':
        i = ip.term(a[0], st)
        if i.op == 'num':
            q = int(i.args[0])
            if q == 0 or (q > 0 and all(s[0] == 'e'
                                        for s in ob.segs[:q])):
                segs = list(ob.segs)
                segs.insert(q, ('e', a[1]))
                st.heap[o.loc] = ListObj(segs, ob.distinct)
                return NONE
        st.heap[o.loc] = ListObj([('t', ip.havoc(node, 'list insert'))])
        return NONE
    if name == 'pop':
        q = -1
        if a:
            i = ip.term(a[0], st)
            if i.op != 'num':
                q = None
            else:
                q = int(i.args[0])
        if q is not None and ob.segs and (
                q == -1 and ob.segs[-1][0] == 'e' or
                q >= 0 and len(ob.segs) > q and
                all(s[0] == 'e' for s in ob.segs[:q + 1])):
            segs = list(ob.segs)
            s = segs.pop(q)
            st.heap[o.loc] = ListObj(segs, ob.distinct)
            return s[1]
        r = mk('item', ip.list_term(ob, st), num(-1) if q is None
               else num(q))
        st.heap[o.loc] = ListObj([('t', mk('popped', ip.list_term(
            ob, st), num(q if q is not None else -1)))], ob.distinct)
        return r
    if name in ('remove', 'discard'):
        if ob.known():
            t = ip.term(a[0], st)
            segs, hit = [], False
            unsure = False
            for s in ob.segs:
                c = T.eq(ip.term(s[1], st), t)
                if c is TRUE and not hit:
                    hit = True
                    continue
                if c is not FALSE and c is not TRUE:
                    unsure = True
                segs.append(s)
            if not unsure:
                st.heap[o.loc] = ListObj(segs, ob.distinct)
                return NONE
        st.heap[o.loc] = ListObj([('t', mk(
            'removed', ip.list_term(ob, st), ip.term(a[0], st)))],
            ob.distinct)
        return NONE
    if name == 'reverse':
        if ob.known():
            st.heap[o.loc] = ListObj(tuple(reversed(ob.segs)))
            return NONE
    if name == 'sort':
        if ob.known() and not k and all(
                isinstance(s[1], Term) and T.is_const(s[1])
                for s in ob.segs):
            vs = sorted(T.const_value(s[1]) for s in ob.segs)
            st.heap[o.loc] = ListObj([('e', T.const(x)) for x in vs])
        else:
            st.heap[o.loc] = ListObj([('t', mk(
                'sorted', ip.list_term(ob, st), *kwterms(M, k, st)))])
        return NONE
    if name == 'index' and ob.known():
        t = ip.term(a[0], st)
        r = mk('trunc', mk('havoc', 'index', ip.newloc()))
        for q in range(len(ob.segs) - 1, -1, -1):
            r = ite(T.eq(ip.term(ob.segs[q][1], st), t), num(q), r)
        return r
    if name == 'count' and ob.known():
        t = ip.term(a[0], st)
        r = num(0)
        for s in ob.segs:
            r = add(r, ite(T.eq(ip.term(s[1], st), t), num(1), num(0)))
        return r
    if name in ('union',) and ob.distinct:
        segs = list(ob.segs)
        for x in a:
            segs += M.list_segs(x, st, node)
        return ip.alloc(st, ListObj(segs, True))
    if name in ('__len__',):
        return M.length(o, st)
    if name in ('difference', 'issubset', 'intersection', 'issuperset'):
        vals = M.concrete(o, st)
        other = M.concrete(a[0], st)
        if vals is not None and other is not None:
            s1 = [ip.term(x, st) for x in vals]
            s2 = [ip.term(x, st) for x in other]
            if all(T.is_const(x) for x in s1 + s2):
                if name == 'difference':
                    return ip.alloc(st, ListObj(
                        [('e', x) for x in s1 if x not in s2], True))
                if name == 'intersection':
                    return ip.alloc(st, ListObj(
                        [('e', x) for x in s1 if x in s2], True))
                if name == 'issubset':
                    return TRUE if all(x in s2 for x in s1) else FALSE
                return TRUE if all(x in s1 for x in s2) else FALSE
    return None


def dict_method(M, o, ob, name, a, k, st, cx, node):
    ip = M.ip
    if name == 'keys':
        return Tup(list(ob.items))
    if name == 'values':
        return Tup(list(ob.items.values()))
    if name == 'items':
        return Tup([Tup([kk, vv]) for kk, vv in ob.items.items()])
    if name in ('get', 'setdefault', 'pop'):
        t = ip.term(a[0], st)
        d = a[1] if len(a) > 1 else k.get('default', NONE)
        if t in ob.items:
            v = ob.items[t]
            if name == 'pop':
                items = dict(ob.items)
                del items[t]
                st.heap[o.loc] = DictObj(items, ob.default)
            return v
        const = T.is_const(t) and all(T.is_const(x) for x in ob.items)
        if name == 'setdefault':
            items = dict(ob.items)
            if const:
                items[t] = d
                st.heap[o.loc] = DictObj(items, ob.default)
                return d
            return ip.havoc(node, 'setdefault')
        if const:
            return d
        r = d
        for kk, vv in ob.items.items():
            r = ip.merge_values(T.eq(t, kk), vv, r)
        return r
    if name == 'update':
        items = dict(ob.items)
        for x in a:
            if isinstance(x, Ref) and isinstance(st.heap.get(x.loc),
                                                 DictObj):
                items.update(st.heap[x.loc].items)
                continue
            vals = M.concrete(x, st)
            if vals is None:
                ip.note(node, 'dict update')
                return None
            for y in vals:
                kv = M.concrete(y, st)
                items[ip.term(kv[0], st)] = kv[1]
        for n, v in k.items():
            items[string(n)] = v
        st.heap[o.loc] = DictObj(items, ob.default)
        return NONE
    if name == 'copy':
        return ip.alloc(st, ob)
    if name == 'clear':
        st.heap[o.loc] = DictObj({}, ob.default)
        return NONE
    return None


def arr_method(M, o, x, name, a, k, st, cx, node):
    ip = M.ip
    nd = ndim_of(x)
    sh = [M.dim(x, q) for q in range(nd)]
    if name == 'astype':
        dt = M.dtype(a[0] if a else k.get('dtype'), st) or x.dtype
        if isinstance(x, SelObj):
            r = M.newarr(st, M.cast(dt, x.term), sh, dt, x.mask)
            st.heap[r.loc] = SelObj(M.cast(dt, x.term), sh, dt, x.mask,
                                    x.sel)
            return r
        return M.newarr(st, M.cast(dt, x.term), sh, dt, x.mask)
    if name in ('copy', 'view', '__copy__', 'squeeze'):
        if name == 'view' and (a or k):
            return None
        if name == 'view':
            return o
        if name == 'squeeze':
            return None
        if isinstance(x, SelObj):
            return o
        return M.newarr(st, x.term, sh, x.dtype, x.mask)
    if name in ('flatten', 'ravel'):
        order = arg(a, k, 0, 'order', string('C'))
        if isinstance(x, SelObj):
            return o
        if len(sh) == 1:
            return M.newarr(st, x.term, sh, x.dtype, x.mask)
        return M.reshape(st, o, num(-1), node, order.args[0])
    if name == 'reshape':
        order = k.get('order', string('C'))
        shape = a[0] if len(a) == 1 else Tup(a)
        return M.reshape(st, o, shape, node, order.args[0])
    if name == 'transpose':
        p = None
        if a:
            items = a[0].items if isinstance(a[0], Tup) else a
            p = [int(y.args[0]) for y in items]
        return M.transpose(o, st, p)
    if name == 'swapaxes':
        return M.transpose(o, st) if nd == 2 else None
    if name in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod'):
        return reduction(name)(M, [o] + list(a), k, st, cx, node)
    if name == 'fill':
        if isinstance(o, Ref):
            M.write_full(st, o, M.pt(a[0], st), node)
            return NONE
    if name == 'filled':
        if x.mask is None:
            return M.newarr(st, x.term, sh, x.dtype)
        v = M.pt(a[0] if a else k.get('fill_value', mk(
            'havoc', 'fill', 0)), st)
        return M.newarr(st, ite(x.mask, M.cast(x.dtype, v), x.term), sh,
                        x.dtype)
    if name == 'nonzero':
        r = chosen(M, x, st)
        return mk('nonzero', truth(x.term)) if r is None else r
    if name == 'clip':
        return _clip(M, [o] + list(a), k, st, cx, node)
    if name == 'round':
        return _around(M, [o] + list(a), k, st, cx, node)
    if name == 'item':
        if not a and all(d is num(1) for d in sh):
            return at(x.term, [num(0)] * nd)
        if a:
            return M.getitem(o, Tup(a) if len(a) > 1 else a[0], st, node)
    if name == 'tolist':
        if nd == 1 and sh[0].op != 'num':
            t = fresh('u')
            return ip.alloc(st, ListObj([('c', (t,), (sh[0],), TRUE,
                                          at(x.term, [t]))]))
        vals = M.concrete(o, st)
        if vals is not None and nd == 1:
            return ip.alloc(st, ListObj([('e', v) for v in vals]))
        return None
    if name in ('compressed',):
        return None
    if name == 'dot':
        return None
    if name in ('setflags', 'harden_mask'):
        return NONE
    if name in ('sort', 'put', 'resize', 'itemset', 'partition',
                'byteswap'):
        if isinstance(o, Ref):
            M.write_full(st, o, mk('at', mk('havoc', name, ip.newloc()),
                                   *IX[:nd]), node)
            ip.note(node, 'array %s' % name)
            return NONE
    r = mk('mcall', M.arrval(x), name, *[term_of(M, y, st) for y in a],
           *kwterms(M, k, st))
    return r


def inst_method(M, o, ob, name, a, k, st, cx, node):
    """Methods inherited from library classes."""
    ip = M.ip
    base = [b.args[0] for b in ob.cls.bases if isinstance(b, Term) and
            b.op == 'ext']
    if any(b.startswith('configparser.') for b in base):
        if name in ('get', 'getfloat', 'getint', 'getboolean'):
            ts = [ip.term(x, st) for x in a]
            ip.event('config.' + name, a, k, st, node)
            v = mk('cfg', *ts[:2])
            if name == 'getfloat':
                return mk('tofloat', v)
            if name == 'getint':
                return mk('toint', v)
            if name == 'getboolean':
                return mk('tobool', v)
            return v
        if name in ('sections', 'options', 'items') and \
                M.config_model is not None:
            sec = ip.term(a[0], st) if a else None
            if name == 'sections':
                xs = [string(x) for x in M.config_model]
            elif sec is None or sec.op != 'str' or \
                    sec.args[0] not in M.config_model:
                return mk('havoc', name, ip.newloc())
            else:
                xs = [string(x) for x in M.config_model[sec.args[0]]]
                if name == 'items':
                    xs = [Tup([x, mk('cfg', sec, x)]) for x in xs]
            return ip.alloc(st, ListObj([('e', x) for x in xs]))
        if name in ('sections', 'options'):
            return mk('mcall', mk('sym_config'), name,
                      *[ip.term(x, st) for x in a])
        if name in ('has_option', 'has_section'):
            return truth(mk('mcall', mk('sym_config'), name,
                            *[ip.term(x, st) for x in a]))
        return effect(M, '.' + name, a, k, st, node, recv=o)
    return None
