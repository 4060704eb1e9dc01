"""Structured abstract values and heap objects."""

from . import terms as T
from .terms import Term, mk


class Value(object):
    __slots__ = ()


class Tup(Value):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Ref(Value):
    """Reference to a heap object (list, dict, instance, array...)."""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Func(Value):
    __slots__ = ('node', 'frame', 'module', 'name', 'defaults', 'kwdefaults',
                 'cls', 'isgen', 'wrapped')

    def __init__(self, node, frame, module, name, defaults, kwdefaults,
                 cls=None):
        self.node, self.frame, self.module = node, frame, module
        self.name, self.defaults, self.kwdefaults = name, defaults, kwdefaults
        self.cls = cls
        self.isgen = None
        self.wrapped = None

    def __repr__(self):
        return '<function %s.%s>' % (self.module, self.name)


class Partial(Value):
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Bound(Value):
    __slots__ = ('func', 'obj')

    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class Method(Value):
    """Method `name` of a modelled object (list, dict, array, string)."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Cls(Value):
    __slots__ = ('node', 'module', 'name', 'bases', 'frame', 'uid')

    def __init__(self, node, module, name, bases, frame, uid):
        self.node, self.module, self.name = node, module, name
        self.bases, self.frame, self.uid = bases, frame, uid


class Mod(Value):
    __slots__ = ('name', 'frame')

    def __init__(self, name, frame):
        self.name, self.frame = name, frame


class Range(Value):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SliceV(Value):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Choice(Value):
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class Seq(Value):
    """Symbolic sequence: element(t) for 0 <= t < n.  `elem` maps a term to
    a value; `key` identifies the sequence."""
    __slots__ = ('n', 'elem', 'key', 'product')

    def __init__(self, n, elem, key=None, product=None):
        self.n, self.elem, self.key, self.product = n, elem, key, product


# ------------------------------------------------------------ heap objects

class Obj(object):
    __slots__ = ()


class ListObj(Obj):
    """segs: ('e', value) | ('c', vars, ns, guard, value)"""
    __slots__ = ('segs', 'distinct')

    def __init__(self, segs, distinct=False):
        self.segs = tuple(segs)
        self.distinct = distinct

    def known(self):
        return all(s[0] == 'e' for s in self.segs)

    def values(self):
        return [s[1] for s in self.segs]


class DictObj(Obj):
    """items: ordered mapping term-key -> value; `default`: value or None;
    `extra`: opaque later updates."""
    __slots__ = ('items', 'default')

    def __init__(self, items, default=None):
        self.items = dict(items)
        self.default = default


class InstObj(Obj):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class FrameObj(Obj):
    __slots__ = ('vars', 'parent', 'module', 'globs')

    def __init__(self, vars, parent, module):
        self.vars, self.parent, self.module = dict(vars), parent, module


class ArrObj(Obj):
    """An array; `term` is its pointwise content, `mask` the pointwise mask
    of a masked array (or None)."""
    __slots__ = ('term', 'shape', 'dtype', 'mask', 'view')

    def __init__(self, term, shape=None, dtype=None, mask=None, view=None):
        self.term, self.shape, self.dtype = term, shape, dtype
        self.mask, self.view = mask, view

    def with_term(self, term, mask=None):
        return ArrObj(term, self.shape, self.dtype,
                      mask if mask is not None else self.mask, self.view)
