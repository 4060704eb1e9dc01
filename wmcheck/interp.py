"""Abstract interpreter: source -> terms.

The analysed functions are evaluated over *terms* (see terms.py).  Nothing is
executed: inputs are opaque symbols, both branches of a condition are analysed
and joined, calls into the repository are analysed at the call site, calls out
of it are modelled (models.py) or kept as uninterpreted operations and, when
they have an effect, recorded in the event trace with the condition and the
loops they occur under.  A loop over an unknown number of iterations is
summarised from one generic iteration: induction variables and reductions get
closed forms, stores become array comprehensions, appends list
comprehensions; anything else becomes an explicit `fix` term.
"""

import array
import ast
import builtins
import collections
import itertools

from . import terms as T
from .terms import (Term, mk, num, string, const, add, sub, mul, neg, ite,
                    tand, tor, tnot, TRUE, FALSE, NONE, truth, subst, fresh,
                    is_const, const_value, kind)
from .values import (Value, Tup, Ref, Func, Bound, Method, Cls, Mod, Range,
                     SliceV, Choice, Seq, Partial, ListObj, DictObj, InstObj,
                     FrameObj, ArrObj)


class Dead(Exception):
    """The current path cannot continue."""


class Unsupported(Exception):
    """A construct the analysis has no rule for."""


UNDEF = mk('undef')


class State(object):
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc=()):
        self.heap, self.pc = heap, pc

    def copy(self):
        return State(dict(self.heap), self.pc)


class Event(object):
    __slots__ = ('name', 'args', 'kwargs', 'pc', 'loops', 'node', 'module',
                 'func', 'result', 'serial', 'stack', 'recv', 'terms',
                 'taken')

    def __init__(self, **kw):
        self.taken = False      # its failure is taken by a handler
        for k, v in kw.items():
            setattr(self, k, v)

    def where(self):
        return '%s:%s (%s)' % (self.module, getattr(self.node, 'lineno', 0),
                               self.func)

    def __repr__(self):
        return '%s(%s) if %s @%s' % (
            self.name, ', '.join(map(repr, self.args)),
            ' and '.join(map(T.show, self.pc)) or 'always', self.where())


class Ctx(object):
    """Per-activation control context."""

    def __init__(self, func, module, frame, depth):
        self.func, self.module, self.frame = func, module, frame
        self.depth = depth
        self.returns = []
        self.loops = []        # stack of Loop
        self.yields = None


class LoopCtl(object):
    def __init__(self):
        self.breaks = []
        self.continues = []


MAX_UNROLL = 80

# Attributes of values; sequences may stand for those of other libraries.
ATTRS = {
    'range': set(dir(range(1))) | {'tolist', 'shape', 'size', 'ndim',
                                   'dtype', 'astype', 'min', 'max', 'sum',
                                   'mean', 'reshape', 'copy'},
    'list': set(dir([])) | set(dir(())) | set(dir(set())) |
    set(dir(collections.deque)) | set(dir(array.array)) | {
        'shape', 'size', 'ndim', 'dtype', 'astype', 'min', 'max', 'sum',
        'mean', 'reshape', 'tolist', 'ravel', 'flatten', 'T', 'fill',
        'any', 'all', 'values', 'iloc', 'loc', 'item', 'argmin', 'argmax',
        'nonzero', 'cumsum', 'put', 'take', 'std', 'var', 'prod', 'round',
        'clip', 'dot', 'transpose', 'squeeze', 'view', 'unique', 'itemset',
        'nbytes', 'itemsize', 'flat', 'real', 'imag', 'wait', 'get'},
    'dict': set(dir({})) | set(dir(collections.OrderedDict())) |
    set(dir(collections.Counter())) |
    set(dir(collections.defaultdict(list))) | {'maps', 'new_child'},
    'none': set(dir(None)),
    'str': set(dir('')) | set(dir(b'')),
}
MAX_DEPTH = 40


class Interp(object):

    def __init__(self, tree, models=None):
        self.tree = tree
        self.counter = itertools.count(1)
        self.trace = []
        self.loopstack = []
        self.callstack = []
        self.trystack = []
        self.handling = []      # exceptions of the handlers running
        self.notes = []
        self.mods = {}
        self.base = State({})
        self.analysed = {}      # function qualified name -> times analysed
        self.module_state = self.base
        from . import models as M
        self.M = M.Models(self)

    # ------------------------------------------------------------ utilities

    def note(self, node, msg):
        mod = self.callstack[-1][0] if self.callstack else '?'
        self.notes.append('%s:%s: %s' % (mod, getattr(node, 'lineno', 0),
                                         msg))

    def newloc(self):
        return next(self.counter)

    def alloc(self, st, obj):
        loc = self.newloc()
        st.heap[loc] = obj
        return Ref(loc)

    def obj(self, st, ref):
        return st.heap.get(ref.loc)

    def havoc(self, node, why, *deps):
        self.note(node, why)
        return mk('havoc', why, self.newloc())

    # ------------------------------------------------------------ modules

    def load(self, name, as_main=False):
        """Abstractly execute a module body (once)."""
        key = name
        if key in self.mods:
            return self.mods[key]
        st = self.module_state
        heap = st.heap
        loc = self.newloc()
        st.heap[loc] = FrameObj({}, None, name)
        m = Mod(name, loc)
        self.mods[key] = m
        src = self.tree.modules.get(name)
        if src is None:          # namespace package without __init__
            return m
        self._setvar(st, loc, '__name__',
                     string('__main__' if as_main else name))
        self._setvar(st, loc, '__file__', string(src.path))
        cx = Ctx('<module>', name, loc, 0)
        self.callstack.append((name, '<module>'))
        saved = self.trace, self.trystack
        self.trace, self.trystack = [], []
        try:
            st2 = self.exec_block(src.tree.body, st, cx)
            if st2 is not None and st2 is not st:
                st.heap.update(st2.heap)
                st.pc = ()
        except Dead:
            pass
        finally:
            if st.heap is not heap:
                new = dict(st.heap)
                heap.clear()
                heap.update(new)
                st.heap = heap
            self.callstack.pop()
            self.modtrace = self.trace
            self.trace, self.trystack = saved
        return m

    def lookup_module_var(self, st, mod, name):
        f = st.heap.get(mod.frame)
        if f is None:
            f = self.base.heap[mod.frame]
        return f.vars.get(name)

    def getfunc(self, module, name):
        m = self.load(module)
        v = self.base.heap[m.frame].vars.get(name)
        return v

    # ------------------------------------------------------------ variables

    def _setvar(self, st, loc, name, value):
        f = st.heap[loc]
        nv = dict(f.vars)
        nv[name] = value
        m = nv.get('$maybe')
        if m and name in m:
            nv['$maybe'] = {k: c for k, c in m.items() if k != name}
        st.heap[loc] = FrameObj(nv, f.parent, f.module)

    def _frame(self, st, loc):
        f = st.heap.get(loc)
        if f is None:
            f = self.base.heap.get(loc)
            if f is not None:
                st.heap[loc] = f
        return f

    def getvar(self, st, cx, name, node=None):
        loc = cx.frame
        first = True
        while loc is not None:
            f = self._frame(st, loc)
            if name in f.vars and f.vars[name] is not UNDEF:
                v = f.vars[name]
                if name in f.vars.get('$maybe', ()):
                    self.fails('NameError', 'the name %s is not bound'
                               % name, st, node, f.vars['$maybe'][name])
                if isinstance(v, Choice) and not isinstance(v, Term):
                    v = self.refine(v, st)
                return v
            if first:
                g = f.vars.get('$global')
                if g and name in g:
                    loc = self.mods[cx.module].frame
                    first = False
                    continue
            first = False
            loc = f.parent
        m = self.mods.get(cx.module)
        if m is not None:
            f = self._frame(st, m.frame)
            if name in f.vars:
                return f.vars[name]
        v = self.M.builtin(name)
        if v is not None:
            return v
        if hasattr(builtins, name):
            return self.havoc(node, 'builtin ' + name)
        if m is not None and '$star' in self._frame(st, m.frame).vars:
            return self.havoc(node, 'name from an unknown module')
        if name in self.globals_of(cx.module):
            return self.havoc(node, 'global ' + name)
        self.note(node, 'unbound name %s' % name)
        self.fails('NameError', 'the name %s is not bound' % name, st, node)
        return mk('unbound', name)

    def globals_of(self, module):
        """Names some function of the module declares global."""
        m = self.tree.modules.get(module)
        if m is None:
            return ()
        return {n for x in ast.walk(m.tree) if isinstance(x, ast.Global)
                for n in x.names}

    def refine(self, v, st):
        """Drop the impossible side of a choice under the path condition."""
        while isinstance(v, Choice):
            if v.cond in st.pc:
                v = v.a
            elif tnot(v.cond) in st.pc:
                v = v.b
            else:
                break
        return v

    def assign_name(self, st, cx, name, value):
        f = self._frame(st, cx.frame)
        g = f.vars.get('$global')
        loc = cx.frame
        if g and name in g:
            loc = self.mods[cx.module].frame
            self._frame(st, loc)
        nl = f.vars.get('$nonlocal')
        if nl and name in nl:
            p = f.parent
            while p is not None:
                pf = self._frame(st, p)
                if name in pf.vars:
                    loc = p
                    break
                p = pf.parent
        self._setvar(st, loc, name, value)

    # ------------------------------------------------------------ merging

    def merge_values(self, c, a, b, st=None):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is None or a is UNDEF:
            return b
        if b is None or b is UNDEF:
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            return ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and \
                len(a.items) == len(b.items):
            return Tup([self.merge_values(c, x, y) for x, y in
                        zip(a.items, b.items)])
        if self.same(a, b):
            return a
        if c.op == 'not':
            return Choice(c.args[0], b, a)
        if isinstance(a, Choice) and a.cond is c:
            a = a.a
        if isinstance(b, Choice) and b.cond is c:
            b = b.b
        return Choice(c, a, b)

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Ref):
            return a.loc == b.loc
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(
                self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Func):
            return a.node is b.node and a.frame == b.frame
        if isinstance(a, Bound):
            return self.same(a.func, b.func) and self.same(a.obj, b.obj)
        if isinstance(a, Method):
            return a.name == b.name and self.same(a.obj, b.obj)
        if isinstance(a, Cls):
            return a.uid == b.uid
        if isinstance(a, Mod):
            return a.name == b.name
        if isinstance(a, Range):
            return (a.start, a.stop, a.step) == (b.start, b.stop, b.step)
        if isinstance(a, SliceV):
            return (a.lo, a.hi, a.step) == (b.lo, b.hi, b.step)
        if isinstance(a, Choice):
            return a.cond is b.cond and self.same(a.a, b.a) and \
                self.same(a.b, b.b)
        if isinstance(a, Seq):
            return a.key is not None and a.key is b.key
        if isinstance(a, Partial):
            return self.same(a.func, b.func) and len(a.args) == len(b.args) \
                and all(self.same(x, y) for x, y in zip(a.args, b.args)) \
                and not a.kwargs and not b.kwargs
        return False

    def merge_objs(self, c, a, b):
        if a is b:
            return a
        if type(a) is not type(b):
            return a
        if isinstance(a, FrameObj):
            if a.vars == b.vars:
                return a
            nv = {}
            ma, mb = a.vars.get('$maybe', {}), b.vars.get('$maybe', {})
            maybe = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                va, vb = a.vars.get(k), b.vars.get(k)
                if k.startswith('$'):
                    if k != '$maybe':
                        nv[k] = va or vb
                    continue
                if va is None or vb is None or k in ma or k in mb:
                    m = ite(c, T.TRUE if va is None else ma.get(k, T.FALSE),
                            T.TRUE if vb is None else mb.get(k, T.FALSE))
                    if m is not T.FALSE:
                        maybe[k] = m
                if va is None or vb is None:
                    nv[k] = va if vb is None else vb
                    continue
                nv[k] = self.merge_values(c, va, vb)
            if maybe:
                nv['$maybe'] = maybe
            return FrameObj(nv, a.parent, a.module)
        if isinstance(a, InstObj):
            nv = {}
            for k in list(a.attrs) + [k for k in b.attrs
                                      if k not in a.attrs]:
                va, vb = a.attrs.get(k), b.attrs.get(k)
                nv[k] = va if vb is None else vb if va is None else \
                    self.merge_values(c, va, vb)
            return InstObj(a.cls, nv)
        if isinstance(a, ArrObj):
            mask = a.mask
            if a.mask is not b.mask:
                mask = ite(c, a.mask or FALSE, b.mask or FALSE)
            return ArrObj(ite(c, a.term, b.term), a.shape if
                          a.shape == b.shape else (a.shape or b.shape),
                          a.dtype if a.dtype == b.dtype else None, mask,
                          a.view)
        if isinstance(a, ListObj):
            return self.merge_lists(c, a, b)
        if isinstance(a, DictObj):
            items = {}
            for k in list(a.items) + [k for k in b.items
                                      if k not in a.items]:
                va, vb = a.items.get(k), b.items.get(k)
                items[k] = va if vb is None else vb if va is None else \
                    self.merge_values(c, va, vb)
            return DictObj(items, a.default)
        return a

    def merge_lists(self, c, a, b):
        sa, sb = a.segs, b.segs
        if len(sa) == len(sb):
            out = []
            ok = True
            for x, y in zip(sa, sb):
                if x is y:
                    out.append(x)
                elif x[0] == 'e' and y[0] == 'e':
                    out.append(('e', self.merge_values(c, x[1], y[1])))
                else:
                    ok = False
            if ok:
                return ListObj(out, a.distinct)
        i = 0
        while i < len(sa) and i < len(sb) and (
                sa[i] is sb[i] or (sa[i][0] == 'e' and sb[i][0] == 'e' and
                                   self.same(sa[i][1], sb[i][1]))):
            i += 1
        out = list(sa[:i])
        for cond, rest in ((c, sa[i:]), (tnot(c), sb[i:])):
            for s in rest:
                if s[0] == 'e':
                    out.append(('c', (), (), cond, s[1]))
                elif s[0] == 'c':
                    out.append(('c', s[1], s[2], tand(cond, s[3]), s[4]))
                else:
                    out.append(s)
        return ListObj(out, a.distinct)

    def merge_states(self, c, a, b):
        """State that is a under c and b otherwise."""
        if a is None:
            return b
        if b is None:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        i = 0
        while i < len(a.pc) and i < len(b.pc) and a.pc[i] is b.pc[i]:
            i += 1
        heap = {}
        ha, hb = a.heap, b.heap
        for k, v in ha.items():
            w = hb.get(k)
            if w is None or w is v:
                heap[k] = v
            else:
                heap[k] = self.merge_objs(c, v, w)
        for k, v in hb.items():
            if k not in ha:
                heap[k] = v
        return State(heap, a.pc[:i])

    def rel(self, st, n):
        return tand(*st.pc[n:]) if len(st.pc) > n else TRUE

    def join(self, exits, n):
        """exits: [(state, value)] with disjoint path conditions beyond
        position n -> (state, value); (None, None) when empty."""
        exits = [e for e in exits if e[0] is not None]
        if not exits:
            return None, None
        st, val = exits[-1]
        for s, v in reversed(exits[:-1]):
            c = self.rel(s, n)
            val = self.merge_values(c, v, val) if v is not None and \
                val is not None else (v if val is None else val)
            st = self.merge_states(c, s, st)
        return st, val

    # ------------------------------------------------------------ values

    def lift(self, f, v, st=None):
        """Apply f through choices."""
        if isinstance(v, Choice):
            if st is not None:
                w = self.refine(v, st)
                if w is not v:
                    return self.lift(f, w, st)
            return self.merge_values(v.cond, self.lift(f, v.a, st),
                                     self.lift(f, v.b, st))
        return f(v)

    def arr(self, st, v):
        """ArrObj of a value that is an array reference, else None."""
        if isinstance(v, Ref):
            o = st.heap.get(v.loc)
            if isinstance(o, ArrObj):
                if o.view is not None:
                    return self.M.read_view(st, o)
                return o
        return None

    def term(self, v, st):
        """Term of any value (content of references included)."""
        if isinstance(v, Term):
            return v
        if v is None:
            return NONE
        if isinstance(v, Tup):
            return mk('tuple', *[self.term(x, st) for x in v.items])
        if isinstance(v, Choice):
            given = self.M.given
            if v.cond not in self.M.shared_conds:
                return ite(v.cond, self.term(v.a, st), self.term(v.b, st))
            try:
                self.M.given = dict(given)
                self.M.given.update({v.cond: 1, tnot(v.cond): 2})
                a = self.term(v.a, st)
                self.M.given.update({v.cond: 2, tnot(v.cond): 1})
                b = self.term(v.b, st)
            finally:
                self.M.given = given
            return ite(v.cond, a, b)
        if isinstance(v, Ref):
            o = st.heap.get(v.loc)
            if o is None:
                o = self.base.heap.get(v.loc)
            if isinstance(o, ArrObj):
                if o.view is not None:
                    o = self.M.read_view(st, o)
                t = o.term
                while t is not None and t.op == 'ite' and \
                        t.args[0] in self.M.given:
                    t = t.args[self.M.given[t.args[0]]]
                if t is not o.term:
                    o = ArrObj(t, o.shape, o.dtype, o.mask)
                return self.M.arrval(o)
            if isinstance(o, ListObj):
                return self.list_term(o, st)
            if isinstance(o, DictObj):
                return mk('dict', *[mk('tuple', k, self.term(x, st))
                                    for k, x in o.items.items()])
            if isinstance(o, InstObj):
                return mk('inst', o.cls.name, v.loc)
            return mk('ref', v.loc)
        if isinstance(v, Range):
            return mk('range', v.start, v.stop, v.step)
        if isinstance(v, Seq):
            if v.key is not None:
                return v.key
            t = fresh('q')
            return T.close('seq', (t,), (v.n, TRUE,
                                         self.term(v.elem(t), st)))
        if isinstance(v, Func):
            return mk('func', '%s.%s' % (v.module, v.name), v.frame
                      if v.node.__class__ is ast.Lambda else 0)
        if isinstance(v, Bound):
            return mk('bound', self.term(v.func, st), self.term(v.obj, st))
        if isinstance(v, Method):
            return mk('method', self.term(v.obj, st), v.name)
        if isinstance(v, Cls):
            return mk('class', '%s.%s' % (v.module, v.name))
        if isinstance(v, Mod):
            return mk('module', v.name)
        if isinstance(v, SliceV):
            return mk('slicev', *[self.term(x, st)
                                  for x in (v.lo, v.hi, v.step)])
        if isinstance(v, Partial):
            return mk('partial', self.term(v.func, st),
                      *[self.term(x, st) for x in v.args])
        raise Unsupported('no term for %r' % (v,))

    def list_term(self, o, st):
        if o.known():
            t = mk('list', *[self.term(s[1], st) for s in o.segs])
        else:
            parts = []
            for s in o.segs:
                if s[0] == 'e':
                    parts.append(mk('list', self.term(s[1], st)))
                elif s[0] == 'c':
                    body = self.term(s[4], st)
                    if s[1]:
                        parts.append(T.close('seq', s[1],
                                             (tuple(s[2]), s[3], body)))
                    else:
                        parts.append(ite(s[3], mk('list', body), mk('list')))
                elif s[0] == 't':
                    parts.append(s[1])
                else:
                    parts.append(mk('havoc', 'list', 0))
            # join adjacent literal parts
            out = []
            for p in parts:
                if out and p.op == 'list' and out[-1].op == 'list':
                    out[-1] = mk('list', *(out[-1].args + p.args))
                else:
                    out.append(p)
            t = out[0] if len(out) == 1 else mk('concat', *out)
        if o.distinct:
            t = mk('distinct', t)
        return t

    # ------------------------------------------------------------ events

    def event(self, name, args, kwargs, st, node, recv=None):
        ev = Event(name=name, args=list(args), kwargs=dict(kwargs),
                   pc=st.pc, loops=tuple(self.loopstack), node=node,
                   module=self.callstack[-1][0] if self.callstack else '',
                   func=self.callstack[-1][1] if self.callstack else '',
                   result=None, serial=self.newloc(),
                   stack=tuple(self.callstack), recv=recv,
                   terms=None)
        self.trace.append(ev)
        return ev

    def fails(self, kind, what, st, node, cond=T.TRUE):
        """The program ends with an error here where cond holds."""
        if any(self.match(tc.types, (kind,)) is not None
               for tc in self.trystack):
            return
        c = self.known(cond, st)
        if c is False:
            return
        self.event('$fails', [string(kind), string(what),
                              T.TRUE if c else cond], {}, st, node)

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, st, cx):
        for s in stmts:
            if st is None:
                return None
            try:
                st = self.exec_stmt(s, st, cx)
            except Dead:
                return None
        return st

    def exec_stmt(self, node, st, cx):
        m = getattr(self, 'x_' + node.__class__.__name__, None)
        if m is None:
            raise Unsupported('statement %s line %s' % (
                node.__class__.__name__, node.lineno))
        return m(node, st, cx)

    def x_Pass(self, node, st, cx):
        return st

    def x_Expr(self, node, st, cx):
        if isinstance(node.value, ast.Constant):
            return st
        self.eval(node.value, st, cx)
        return st

    def x_Import(self, node, st, cx):
        if any(a.name.split('.')[0] in self.M.missing for a in node.names):
            return self.do_raise(self.M.missing_as, st, node, cx)
        for a in node.names:
            m = self.import_module(a.name, st, node)
            if a.asname:
                self.assign_name(st, cx, a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.assign_name(st, cx, top,
                                 self.import_module(top, st, node))
        return st

    def import_module(self, name, st, node):
        r = self.tree.resolve(name)
        if r is None:
            self.raise_point(st, 'import ' + name, ('ImportError',
                                                    'ModuleNotFoundError'))
            return mk('ext', self.M.canon(name))
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            sub_name = '.'.join(parts[:i])
            m = self.load(sub_name)
            if i > 1:
                parent = self.mods['.'.join(parts[:i - 1])]
                self._modset(st, parent.frame, parts[i - 1], m)
        for loc, o in self.base.heap.items():
            if loc not in st.heap:
                st.heap[loc] = o
        return m

    def _modset(self, st, loc, name, v):
        for s in (self.base, st):
            f = s.heap.get(loc)
            if f is None:
                f = self.base.heap[loc]
            nv = dict(f.vars)
            nv.setdefault(name, v)
            s.heap[loc] = FrameObj(nv, f.parent, f.module)

    def x_ImportFrom(self, node, st, cx):
        name = node.module or ''
        r = self.tree.resolve(name)
        if r is None and name.split('.')[0] in self.M.missing:
            return self.do_raise(self.M.missing_as, st, node, cx)
        if r is None:
            self.raise_point(st, 'import ' + name, ('ImportError',
                                                    'ModuleNotFoundError'))
            for a in node.names:
                if a.name == '*':
                    self.assign_name(st, cx, '$star', T.TRUE)
                    continue
                self.assign_name(st, cx, a.asname or a.name, mk(
                    'ext', self.M.canon(name + '.' + a.name)))
            return st
        m = self.import_module(name, st, node)
        for a in node.names:
            v = self.lookup_module_var(st, m, a.name)
            if v is None and self.tree.resolve(name + '.' + a.name):
                v = self.import_module(name + '.' + a.name, st, node)
            if v is None:
                self.note(node, 'cannot import %s from %s' % (a.name, name))
                v = mk('unbound', name + '.' + a.name)
            self.assign_name(st, cx, a.asname or a.name, v)
        return st

    def x_FunctionDef(self, node, st, cx):
        v = self.make_func(node, st, cx, node.name)
        for d in reversed(node.decorator_list):
            v = self.decorate(d, v, st, cx, node)
        self.assign_name(st, cx, node.name, v)
        return st

    def decorate(self, d, v, st, cx, node):
        if isinstance(d, ast.Name) and d.id in ('staticmethod',
                                                'classmethod', 'property'):
            return Partial(mk('ext', 'builtins.' + d.id), (v,), {})
        f = self.eval(d, st, cx)
        r = self.call(f, [v], {}, st, cx, node)
        if isinstance(r, Func) and isinstance(v, Func):
            r2 = Func(r.node, r.frame, r.module, r.name, r.defaults,
                      r.kwdefaults, r.cls)
            r2.wrapped = v
            return r2
        return r

    def make_func(self, node, st, cx, name, cls=None):
        a = node.args
        defaults = [self.eval(d, st, cx) for d in a.defaults]
        kwdefaults = {k.arg: self.eval(d, st, cx) for k, d in
                      zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Func(node, cx.frame, cx.module, name, defaults, kwdefaults,
                    cls)

    def x_ClassDef(self, node, st, cx):
        bases = [self.eval(b, st, cx) for b in node.bases]
        loc = self.newloc()
        st.heap[loc] = FrameObj({}, cx.frame, cx.module)
        sub_cx = Ctx(node.name, cx.module, loc, cx.depth)
        self.exec_block(node.body, st, sub_cx)
        c = Cls(node, cx.module, node.name, bases, loc, loc)
        # methods must not see the class frame as enclosing scope
        f = st.heap[loc]
        nv = {}
        for k, v in f.vars.items():
            nv[k] = self._unscope(v, loc, cx.frame)
        st.heap[loc] = FrameObj(nv, None, cx.module)
        for d in reversed(node.decorator_list):
            self.eval(d, st, cx)
        self.assign_name(st, cx, node.name, c)
        return st

    def _unscope(self, v, loc, frame):
        if isinstance(v, Func) and v.frame == loc:
            return Func(v.node, frame, v.module, v.name, v.defaults,
                        v.kwdefaults, v.cls)
        if isinstance(v, Partial):
            return Partial(v.func, tuple(self._unscope(x, loc, frame)
                                         for x in v.args), v.kwargs)
        return v

    def x_Return(self, node, st, cx):
        v = self.eval(node.value, st, cx) if node.value else NONE
        cx.returns.append((st, v, tuple(self.loopstack)))
        return None

    def x_Global(self, node, st, cx):
        f = self._frame(st, cx.frame)
        g = set(f.vars.get('$global', ())) | set(node.names)
        self._setvar(st, cx.frame, '$global', frozenset(g))
        return st

    def x_Nonlocal(self, node, st, cx):
        f = self._frame(st, cx.frame)
        g = set(f.vars.get('$nonlocal', ())) | set(node.names)
        self._setvar(st, cx.frame, '$nonlocal', frozenset(g))
        return st

    def x_Delete(self, node, st, cx):
        for t in node.targets:
            self.del_target(t, st, cx)
        return st

    def del_target(self, t, st, cx):
        if isinstance(t, ast.Name):
            f = self._frame(st, cx.frame)
            if t.id in f.vars:
                nv = dict(f.vars)
                v = nv.pop(t.id)
                st.heap[cx.frame] = FrameObj(nv, f.parent, f.module)
                if isinstance(v, Term) and v.op in ('obj', 'call', 'mcall',
                                                    'ite'):
                    self.event('$del', [v], {}, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.del_target(e, st, cx)

    def x_Assign(self, node, st, cx):
        v = self.eval(node.value, st, cx)
        for t in node.targets:
            self.assign(t, v, st, cx, node)
        return st

    def x_AnnAssign(self, node, st, cx):
        if node.value is not None:
            v = self.eval(node.value, st, cx)
            self.assign(node.target, v, st, cx, node)
        return st

    def x_AugAssign(self, node, st, cx):
        cur = self.eval(_load(node.target), st, cx)
        rhs = self.eval(node.value, st, cx)
        a = self.arr(st, cur)
        if a is not None and isinstance(node.target, (ast.Name,
                                                      ast.Attribute)):
            new = self.M.binop(node.op, cur, rhs, st, node)
            self.M.write_full(st, cur, self.M.pt(new, st), node,
                              inplace=True)
            return st
        if isinstance(cur, Ref) and isinstance(st.heap.get(cur.loc),
                                               ListObj) and \
                isinstance(node.op, ast.Add):
            self.M.list_extend(st, cur, rhs, node)
            return st
        new = self.M.binop(node.op, cur, rhs, st, node)
        self.assign(node.target, new, st, cx, node)
        return st

    def assign(self, target, v, st, cx, node):
        if isinstance(target, ast.Name):
            old = self._frame(st, cx.frame).vars.get(target.id)
            if old is not None and v is NONE and isinstance(old, Term) and \
                    old.op in ('obj', 'mcall', 'call'):
                self.event('$del', [old], {}, st, node)
            self.assign_name(st, cx, target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(target.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                items = self.unpack_star(v, target.elts, st, node)
            else:
                items = self.unpack(v, len(target.elts), st, node)
            for t, x in zip(target.elts, items):
                if isinstance(t, ast.Starred):
                    t = t.value
                self.assign(t, x, st, cx, node)
        elif isinstance(target, ast.Attribute):
            o = self.eval(target.value, st, cx)
            self.set_attr(o, target.attr, v, st, node)
        elif isinstance(target, ast.Subscript):
            o = self.eval(target.value, st, cx)
            i = self.eval_index(target.slice, st, cx)
            self.M.store(o, i, v, st, node)
        else:
            raise Unsupported('assignment target')

    def set_attr(self, o, name, v, st, node):
        if isinstance(o, Choice):
            self.set_attr(o.a, name, self.merge_values(
                o.cond, v, self.get_attr(o.a, name, st, None, node)),
                st, node)
            self.set_attr(o.b, name, self.merge_values(
                o.cond, self.get_attr(o.b, name, st, None, node), v),
                st, node)
            return
        if isinstance(o, Ref):
            ob = st.heap.get(o.loc) or self.base.heap.get(o.loc)
            if isinstance(ob, InstObj):
                na = dict(ob.attrs)
                na[name] = v
                st.heap[o.loc] = InstObj(ob.cls, na)
                return
            if isinstance(ob, ArrObj) and name == 'shape':
                r = self.M.reshape(st, o, v, node)
                st.heap[o.loc] = st.heap[r.loc]
                return
            if isinstance(ob, ArrObj) and name in ('mask', 'data') and \
                    ob.view is None:
                part = self.get_attr(o, name, st, None, node)
                if isinstance(part, Ref):
                    self.M.aliases[part.loc] = (o.loc, name)
                    self.M.arr_store(part, st.heap[part.loc], SliceV(
                        NONE, NONE, NONE), v, st, node)
                    return
            if isinstance(ob, ArrObj):
                self.M.write_full(st, o, mk('havoc', 'array.%s is set' % name,
                                            self.newloc()), node)
                return
        if isinstance(o, Mod):
            self._setvar(st, o.frame, name, v)
            return
        self.event('$setattr', [o if isinstance(o, Term)
                                else self.term(o, st), string(name), v],
                   {}, st, node)

    def unpack(self, v, n, st, node):
        if isinstance(v, Tup) and len(v.items) == n:
            return list(v.items)
        if isinstance(v, Choice):
            xs = self.unpack(v.a, n, st, node)
            ys = self.unpack(v.b, n, st, node)
            return [self.merge_values(v.cond, x, y) for x, y in zip(xs, ys)]
        if isinstance(v, Ref):
            o = st.heap.get(v.loc)
            if isinstance(o, ListObj) and o.known() and len(o.segs) == n:
                return o.values()
        return [self.M.getitem(v, num(i), st, node) for i in range(n)]

    def unpack_star(self, v, elts, st, node):
        vals = self.concrete(v, st)
        k = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)][0]
        if vals is None:
            return [self.havoc(node, 'starred unpacking') for _ in elts]
        after = len(elts) - k - 1
        mid = vals[k:len(vals) - after]
        return list(vals[:k]) + [self.alloc(st, ListObj(
            [('e', x) for x in mid]))] + list(vals[len(vals) - after:])

    # -- branching

    def x_If(self, node, st, cx):
        c = self.cond(node.test, st, cx)
        return self.branch(c, st, lambda s: self.exec_block(node.body, s, cx),
                           lambda s: self.exec_block(node.orelse, s, cx))

    def known(self, c, st):
        """Truth of c under the (syntactic) path condition."""
        if c.op == 'bool':
            return c.args[0]
        if c in st.pc:
            return True
        n = tnot(c)
        if n in st.pc:
            return False
        if c.op == 'and':
            rs = [self.known(x, st) for x in c.args]
            if False in rs:
                return False
            if all(rs):
                return True
        elif c.op == 'or':
            rs = [self.known(x, st) for x in c.args]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
        for p in st.pc:
            if p.op == 'and' and c in p.args:
                return True
            if p.op == 'and' and n in p.args:
                return False
        return None

    def branch(self, c, st, yes, no):
        k = self.known(c, st)
        if k is True:
            return yes(st)
        if k is False:
            return no(st)
        a, b = st.copy(), st
        a.pc = st.pc + (c,)
        b.pc = st.pc + (tnot(c),)
        n = len(st.pc) - 1
        sa = yes(a)
        sb = no(b)
        if sa is None:
            return sb
        if sb is None:
            return sa
        return self.merge_states(c, sa, sb)

    def cond(self, node, st, cx):
        """Evaluate a condition to a boolean term."""
        v = self.eval(node, st, cx)
        return self.truth(v, st, node)

    def truth(self, v, st, node=None):
        if isinstance(v, Term):
            return truth(v)
        if isinstance(v, Choice):
            return ite(v.cond, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Ref):
            o = st.heap.get(v.loc) or self.base.heap.get(v.loc)
            if isinstance(o, ListObj):
                if any(s[0] == 'e' for s in o.segs):
                    return TRUE
                if not o.segs:
                    return FALSE
                return tnot(T.eq(self.M.length(v, st), num(0)))
            if isinstance(o, DictObj):
                return TRUE if o.items else FALSE
            if isinstance(o, ArrObj):
                return truth(self.term(v, st))
            return TRUE
        if isinstance(v, Range):
            return tnot(T.eq(self.M.length(v, st), num(0)))
        if isinstance(v, Seq):
            return tnot(T.eq(v.n, num(0)))
        return TRUE

    def x_Assert(self, node, st, cx):
        c = self.cond(node.test, st, cx)
        return self.branch(c, st, lambda s: s,
                           lambda s: self.do_raise('AssertionError', s,
                                                   node, cx))

    def x_Raise(self, node, st, cx):
        if node.exc is None:
            name = self.handling[-1] if self.handling else '$reraise'
        else:
            e = node.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.eval(a, st, cx)
                e = e.func
            v = self.eval(e, st, cx) if isinstance(e, (ast.Name,
                                                       ast.Attribute)) \
                else mk('any')
            name = self.exc_name(v)
        return self.do_raise(name, st, node, cx)

    def exc_name(self, v):
        if isinstance(v, Term) and v.op == 'ext':
            return v.args[0].split('.')[-1]
        if isinstance(v, Cls):
            return v.name
        if isinstance(v, Term) and v.op == 'call':
            return v.args[0].split('.')[-1]
        if isinstance(v, Ref):
            return 'Exception'
        if isinstance(v, Term) and v.op == 'exc':
            return v.args[0]
        return 'Exception'

    def do_raise(self, name, st, node, cx):
        ev = self.event('$raise', [string(name)], {}, st, node)
        if self.trystack:
            self.trystack[-1].raised.append((name, st, ev))
        return None

    def x_Try(self, node, st, cx):
        class TryCtx(object):
            pass
        tc = TryCtx()
        tc.raised = []          # explicit raises
        tc.points = []          # (cond, state, exceptions)
        tc.types = []
        for h in node.handlers:
            if h.type is None:
                tc.types.append(None)
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) \
                    else [h.type]
                names = []
                for t in ts:
                    v = self.eval(t, st, cx)
                    names.append(self.exc_name(v))
                tc.types.append(names)
        n = len(st.pc)
        nret = len(cx.returns)
        marks = [(len(l.breaks), len(l.continues)) for l in cx.loops]
        self.trystack.append(tc)
        try:
            body = self.exec_block(node.body, st.copy(), cx)
        finally:
            self.trystack.pop()
        # an external failure that some handler takes
        normal = body
        if normal is not None and node.orelse:
            normal = self.exec_block(node.orelse, normal, cx)
        exits = []
        for (rc, snap, excs) in tc.points:
            h = self.match(tc.types, excs)
            if h is None:
                continue
            s = snap.copy()
            s.pc = s.pc + (rc,)
            self.handling.append(excs[0])
            try:
                r = self.handle(node.handlers[h], s, cx, rc)
            finally:
                self.handling.pop()
            exits.append((rc, r))
        raised = []
        for name, s, ev in tc.raised:
            h = self.match(tc.types, (name,))
            if h is None:
                if self.trystack:
                    self.trystack[-1].raised.append((name, s, ev))
                if node.finalbody:
                    self.exec_block(node.finalbody, s.copy(), cx)
                continue
            ev.name = '$caught'
            self.handling.append(name)
            try:
                r = self.handle(node.handlers[h], s.copy(), cx, None)
            finally:
                self.handling.pop()
            if r is not None:
                raised.append((self.rel(s, n), r))
        out = normal
        for c, r in reversed(raised):
            if r is not None:
                out = self.merge_states(c, r, out)
        for rc, r in reversed(exits):
            if r is None:
                if out is not None:
                    out = State(out.heap, out.pc + (tnot(rc),))
            elif out is None:
                out = r
            else:
                out = self.merge_states(rc, r, out)
        if out is not None:
            out = State(out.heap, out.pc[:n] if all(
                r is not None for c, r in exits) and not [
                1 for c, r in raised if r is None] and len(out.pc) > n and
                normal is not None and len(normal.pc) == n else out.pc)
        if node.finalbody:
            for i in range(nret, len(cx.returns)):
                s, v, ls = cx.returns[i]
                s2 = self.exec_block(node.finalbody, s.copy(), cx)
                if s2 is not None:
                    cx.returns[i] = (s2, v, ls)
            if out is not None:
                out = self.exec_block(node.finalbody, out, cx)
        return out

    def handle(self, h, st, cx, rc):
        if h.name:
            self.assign_name(st, cx, h.name, mk('exc', 'Exception'))
        return self.exec_block(h.body, st, cx)

    def match(self, types, excs):
        for i, names in enumerate(types):
            if names is None:
                return i
            for e in excs:
                if any(self.M.is_sub(e, n) for n in names):
                    return i
        return None

    def raise_point(self, st, what, excs, *args):
        """An external operation that may fail inside a try block."""
        for tc in reversed(self.trystack):
            h = self.match(tc.types, excs)
            if h is not None:
                rc = mk('raises', what, *args)
                if self.trace and self.trace[-1].name == what:
                    self.trace[-1].taken = True
                if tc is self.trystack[-1] or True:
                    tc.points.append((rc, st.copy(), excs))
                return rc
        return None

    def x_With(self, node, st, cx):
        exits = []
        for item in node.items:
            v = self.eval(item.context_expr, st, cx)
            r = self.M.enter(v, st, node)
            exits.append(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, r, st, cx, node)
        nret = len(cx.returns)

        class Guard(object):
            pass
        g = Guard()
        g.raised, g.points, g.types = [], [], []
        self.trystack.append(g)
        try:
            st = self.exec_block(node.body, st, cx)
        finally:
            self.trystack.pop()
        for name, s, ev in g.raised:
            for v in exits:
                self.M.leave(v, s, node)
            if self.trystack:
                self.trystack[-1].raised.append((name, s, ev))
        for v in exits:
            for s, _, _ in cx.returns[nret:]:
                self.M.leave(v, s, node)
            if st is not None:
                self.M.leave(v, st, node)
        return st

    # ------------------------------------------------------------ loops

    def x_Break(self, node, st, cx):
        cx.loops[-1].breaks.append(st)
        return None

    def x_Continue(self, node, st, cx):
        cx.loops[-1].continues.append(st)
        return None

    def x_For(self, node, st, cx):
        it = self.eval(node.iter, st, cx)
        return self.for_value(it, node, st, cx)

    def for_value(self, it, node, st, cx):
        if isinstance(it, Choice):
            it = self.refine(it, st)
        if isinstance(it, Choice):
            return self.branch(
                it.cond, st, lambda s: self.for_value(it.a, node, s, cx),
                lambda s: self.for_value(it.b, node, s, cx))
        vals = self.concrete(it, st)
        if vals is not None and len(vals) <= MAX_UNROLL:
            return self.unroll(vals, node, st, cx)
        segs = self.M.iter_segments(it, st, node)
        if len(segs) > 1 and not self._has_break(node.body):
            for s in segs:
                if st is None:
                    return None
                st = self.for_value(s, node, st, cx)
            if node.orelse and st is not None:
                st = self.exec_block(node.orelse, st, cx)
            return st
        seq = self.M.as_seq(it, st, node)
        if seq.product is not None and not self._has_break(node.body):
            return self.nested(seq.product, (), node, st, cx)

        def bind(s, t):
            self.assign(node.target, seq.elem(t), s, cx, node)
        st = self.loop(seq.n, bind, None, node.body, st, cx, node)
        if node.orelse and st is not None:
            st = self.exec_block(node.orelse, st, cx)
        return st

    def _has_break(self, body):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Break,)):
                    return True
        return False

    def nested(self, seqs, done, node, st, cx):
        """for x in product(A, B): nested loops."""
        seq, rest = seqs[0], seqs[1:]

        def body(s, t):
            v = done + (seq.elem(t),)
            if rest:
                return self.nested(rest, v, node, s, cx)
            self.assign(node.target, Tup(v), s, cx, node)
            return self.exec_block(node.body, s, cx)
        return self.loop(seq.n, None, None, body, st, cx, node)

    def unroll(self, vals, node, st, cx):
        ctl = LoopCtl()
        cx.loops.append(ctl)
        n = len(st.pc)
        done = []
        try:
            for v in vals:
                ctl.continues = []
                self.assign(node.target, v, st, cx, node)
                n_i = len(st.pc)
                out = self.exec_block(node.body, st, cx)
                exits = [(s, NONE) for s in ctl.continues]
                if out is not None:
                    exits.append((out, NONE))
                if not exits:
                    st = None
                    break
                if len(exits) == 1:
                    st = exits[0][0]
                else:
                    st, _ = self.join(exits, n_i)
        finally:
            cx.loops.pop()
        if st is not None and node.orelse:
            st = self.exec_block(node.orelse, st, cx)
        if ctl.breaks:
            exits = [(s, NONE) for s in ctl.breaks]
            if st is not None:
                exits.append((st, NONE))
            st, _ = self.join(exits, n)
        return st

    def concrete(self, v, st):
        """Known element values of an iterable, or None."""
        return self.M.concrete(v, st)

    def x_While(self, node, st, cx):
        # a bounded while over constants is unrolled
        c0 = None
        probe = st.copy()
        mark = len(self.trace)
        c = self.cond(node.test, probe, cx)
        del self.trace[mark:]
        k = self.known(c, st)
        if k is False:
            self.cond(node.test, st, cx)
            if node.orelse:
                return self.exec_block(node.orelse, st, cx)
            return st
        if k is True and c.op == 'bool' and (
                self.M.scripted is not None or
                not isinstance(node.test, ast.Constant)):
            r = self.try_unroll_while(node, st, cx)
            if r is not None:
                return r[0]
        if self.M.iterations is not None and not node.orelse:
            r = self.iteration(node, st, cx)
            if r is not None:
                return r
        out = self.loop(None, None, node.test, node.body, st, cx, node)
        if node.orelse and out is not None:
            out = self.exec_block(node.orelse, out, cx)
        return out

    def iteration(self, node, st, cx):
        """A loop that repeats a computation until it is good enough: the
        state after it is that after one more pass from any state.  What it
        starts from, what a pass makes of it and when there is another one
        are recorded in `M.iterations`; None for loops that do more."""
        from .loops import Loop
        probe = Loop(self, None, None, node.test, node.body, st, cx, node)
        s = st.copy()
        c, end, breaks, rets = probe.one(s, False)
        if rets or len(breaks) > 1 or breaks and c is not TRUE:
            return None
        after = (breaks or [end])[0]
        if after is None:
            return None
        keys = set(probe.changed(st, after))
        if end is not None:
            keys |= set(probe.changed(st, end))
        if any(k[1] != 'var' for k in keys):
            return None
        first = T.TRUE if breaks else self.cond(node.test, st.copy(), cx)
        init, pre = {}, {}
        s = st.copy()
        n = len(self.M.iterations)
        for k in sorted(keys, key=lambda x: str(x[2])):
            v = probe.get(st, k)
            if v is None:
                continue
            if not isinstance(v, T.Term):
                return None
            init[k[2]] = v
            pre[k[2]] = T.sym('pre%d_%s' % (n, k[2]), 'float')
            probe.put(s, k, pre[k[2]])
        npc = len(s.pc)
        mark = len(self.trace)
        lp = Loop(self, None, None, None, node.body, s, cx, node)
        c, end, breaks, rets = lp.one(s, True)
        if rets or len(self.trace) != mark or len(breaks) > 1:
            return None
        if breaks:
            out = breaks[0]
            again = T.tnot(T.tand(*out.pc[npc:]))
            new = end if end is not None else out
        elif end is None:
            return None
        else:
            out = new = end
            again = self.cond(node.test, out.copy(), cx)
        step = {}
        for k in pre:
            v = probe.get(new, next(x for x in keys if x[2] == k))
            if not isinstance(v, T.Term):
                return None
            step[k] = v
        start = st.copy()

        def entry(values):
            x = start.copy()
            for k in keys:
                if k[2] in values:
                    probe.put(x, k, values[k[2]])
            return self.cond(node.test, x, cx)
        self.M.iterations.append(dict(
            entry=entry, init=init, pre=pre, step=step, first=first, again=again,
            line=node.lineno))
        out.pc = out.pc[:npc]
        return out

    def try_unroll_while(self, node, st, cx):
        s = st.copy()
        mark = len(self.trace)
        nret = len(cx.returns)
        ctl = LoopCtl()
        cx.loops.append(ctl)
        try:
            for _ in range(MAX_UNROLL):
                c = self.cond(node.test, s, cx)
                k = self.known(c, s)
                if k is None:
                    break
                if k is False:
                    if node.orelse:
                        s = self.exec_block(node.orelse, s, cx)
                    return (s,)
                ctl.continues = []
                out = self.exec_block(node.body, s, cx)
                if self.M.scripted is not None:
                    if out is None and not ctl.continues and \
                            len(ctl.breaks) == 1:
                        return (ctl.breaks[0],)
                    if out is None and not ctl.breaks and \
                            len(ctl.continues) == 1:
                        s = ctl.continues[0]
                        continue
                    if out is None and not ctl.breaks and \
                            not ctl.continues:
                        return (None,)
                if ctl.breaks or ctl.continues or out is None:
                    break
                s = out
            else:
                # every test was decided: the loop goes on for ever, or for
                # more passes than anything that was handed to it
                if self.M.scripted is not None and \
                        getattr(self.M.scripted, 'endless', None) is False:
                    self.M.scripted.endless = True
                    return (None,)
        finally:
            cx.loops.pop()
        del self.trace[mark:]
        del cx.returns[nret:]
        return None

    def loop(self, n, bind, test, body, st, cx, node):
        from .loops import Loop
        return Loop(self, n, bind, test, body, st, cx, node).run()

    # ------------------------------------------------------------ expressions

    def eval(self, node, st, cx):
        m = getattr(self, 'e_' + node.__class__.__name__, None)
        if m is None:
            raise Unsupported('expression %s line %s' % (
                node.__class__.__name__, node.lineno))
        return m(node, st, cx)

    def e_Constant(self, node, st, cx):
        if isinstance(node.value, float):
            x = pi_multiple(node.value)
            if x is not None:
                return x
        return const(node.value)

    def e_Name(self, node, st, cx):
        return self.getvar(st, cx, node.id, node)

    def e_Tuple(self, node, st, cx):
        return Tup(self.eval_items(node.elts, st, cx))

    def eval_items(self, elts, st, cx):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, cx)
                vals = self.concrete(v, st)
                if vals is None:
                    out.append(mk('star', self.term(v, st)))
                else:
                    out.extend(vals)
            else:
                out.append(self.eval(e, st, cx))
        return out

    def e_List(self, node, st, cx):
        segs = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, cx)
                segs.extend(self.M.list_segs(v, st, node))
            else:
                segs.append(('e', self.eval(e, st, cx)))
        return self.alloc(st, ListObj(segs))

    def e_Set(self, node, st, cx):
        return self.alloc(st, ListObj(
            [('e', x) for x in self.eval_items(node.elts, st, cx)],
            distinct=True))

    def e_Dict(self, node, st, cx):
        items = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                d = self.eval(v, st, cx)
                o = st.heap.get(d.loc) if isinstance(d, Ref) else None
                if isinstance(o, DictObj):
                    items.update(o.items)
                else:
                    self.note(node, 'dict unpacking')
                continue
            kk = self.term(self.eval(k, st, cx), st)
            items[kk] = self.eval(v, st, cx)
        return self.alloc(st, DictObj(items))

    def e_Lambda(self, node, st, cx):
        return self.make_func(node, st, cx, '<lambda>')

    def e_Attribute(self, node, st, cx):
        o = self.eval(node.value, st, cx)
        return self.get_attr(o, node.attr, st, cx, node)

    def no_attr(self, o, name, st, node):
        """Values of Python's own types have the attributes of the type."""
        tp = None
        if isinstance(o, Range):
            tp = ATTRS['range']
        elif isinstance(o, Tup):
            tp = ATTRS['list']
        elif isinstance(o, Ref):
            ob = st.heap.get(o.loc)
            tp = ATTRS['list'] if isinstance(ob, ListObj) else \
                ATTRS['dict'] if isinstance(ob, DictObj) else None
        elif o is NONE:
            tp = ATTRS['none']
        elif isinstance(o, Term) and o.op == 'str':
            tp = ATTRS['str']
        if tp is not None and name not in tp:
            self.fails('AttributeError', 'there is no %s in %s' % (
                name, type(o).__name__ if not isinstance(o, Term)
                else T.show(o, 3)), st, node)

    def get_attr(self, o, name, st, cx, node):
        if not isinstance(o, Choice):
            self.no_attr(o, name, st, node)
        return self.lift(lambda v: self._attr(v, name, st, cx, node), o, st)

    def _attr(self, o, name, st, cx, node):
        if isinstance(o, Mod):
            f = self._frame(st, o.frame)
            if name in f.vars:
                return f.vars[name]
            full = o.name + '.' + name
            if self.tree.resolve(full):
                return self.import_module(full, st, node)
            self.note(node, 'no attribute %s in module %s' % (name, o.name))
            self.fails('AttributeError', 'there is no ' + full, st, node)
            return mk('unbound', full)
        if isinstance(o, Ref):
            ob = st.heap.get(o.loc) or self.base.heap.get(o.loc)
            if isinstance(ob, InstObj):
                if name in ob.attrs:
                    return ob.attrs[name]
                v = self.class_attr(ob.cls, name, st)
                if v is not None:
                    return self.bind_method(v, o, st, cx, node)
                if name == '__class__':
                    return ob.cls
                if self.closed(ob.cls, st):
                    full = '%s.%s' % (ob.cls.name, name)
                    self.fails('AttributeError', 'there is no ' + full, st,
                               node)
                    return mk('unbound', full)
                return Method(o, name)
            return self.M.attr(o, name, st, node)
        if isinstance(o, Cls):
            v = self.class_attr(o, name, st)
            if isinstance(v, Partial) and v.func.op == 'ext' and \
                    v.func.args[0] == 'builtins.staticmethod':
                return v.args[0]
            if v is not None:
                return v
            if name == '__name__':
                return string(o.name)
            return mk('attr', self.term(o, st), name)
        if isinstance(o, Func):
            if name == '__name__':
                w = o.wrapped or o
                return string(w.name)
            if name == '__module__':
                return string(o.module)
            if name == '__wrapped__' and o.wrapped:
                return o.wrapped
            return mk('attr', self.term(o, st), name)
        return self.M.attr(o, name, st, node)

    def closed(self, cls, st):
        """Every attribute of an instance is known from the source."""
        if isinstance(cls, Term):
            return cls.op == 'ext' and cls.args[0] in ('object',
                                                       'builtins.object')
        return isinstance(cls, Cls) and not any(
            self.class_attr(cls, x, st) for x in (
                '__getattr__', '__getattribute__')) and all(
            self.closed(b, st) for b in cls.bases)

    def class_attr(self, cls, name, st):
        if not isinstance(cls, Cls):
            return None
        f = self._frame(st, cls.frame)
        if name in f.vars:
            return f.vars[name]
        for b in cls.bases:
            v = self.class_attr(b, name, st)
            if v is not None:
                return v
        return None

    def bind_method(self, v, o, st, cx, node):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, Partial) and isinstance(v.func, Term) and \
                v.func.op == 'ext':
            k = v.func.args[0]
            if k == 'builtins.property':
                return self.call(v.args[0], [o], {}, st, cx, node)
            if k == 'builtins.staticmethod':
                return v.args[0]
            if k == 'builtins.classmethod':
                ob = st.heap.get(o.loc)
                return Bound(v.args[0], ob.cls)
        return v

    def e_Subscript(self, node, st, cx):
        o = self.eval(node.value, st, cx)
        i = self.eval_index(node.slice, st, cx)
        if o is NONE:
            self.fails('TypeError', 'an item of None', st, node)
        return self.lift(lambda v: self.lift(
            lambda j: self.M.getitem(v, j, st, node), i, st), o, st)

    def eval_index(self, node, st, cx):
        if isinstance(node, ast.Slice):
            return self.e_Slice(node, st, cx)
        if isinstance(node, ast.Tuple):
            return Tup([self.eval_index(e, st, cx) for e in node.elts])
        return self.eval(node, st, cx)

    def e_Slice(self, node, st, cx):
        return SliceV(*[self.eval(x, st, cx) if x is not None else NONE
                        for x in (node.lower, node.upper, node.step)])

    def e_Starred(self, node, st, cx):
        return self.eval(node.value, st, cx)

    def e_UnaryOp(self, node, st, cx):
        v = self.eval(node.operand, st, cx)
        if isinstance(node.op, ast.Not):
            return tnot(self.truth(v, st, node))
        return self.lift(lambda x: self.M.unop(node.op, x, st, node), v, st)

    def e_BinOp(self, node, st, cx):
        a = self.eval(node.left, st, cx)
        b = self.eval(node.right, st, cx)
        if (a is NONE or b is NONE) and not self.has_class(a, b, st):
            self.fails('TypeError', 'arithmetic with None', st, node)
        return self.M.binop(node.op, a, b, st, node)

    def has_class(self, a, b, st):
        """One of the operands may define the operation itself."""
        return any(isinstance(x, Ref) and isinstance(
            st.heap.get(x.loc), InstObj) or isinstance(x, Choice)
            for x in (a, b))

    def e_Compare(self, node, st, cx):
        left = self.eval(node.left, st, cx)
        out = None
        for op, c in zip(node.ops, node.comparators):
            right = self.eval(c, st, cx)
            r = self.M.compare(op, left, right, st, node)
            if out is None:
                out = r
            else:
                out = tand(self.truth(out, st), self.truth(r, st)) \
                    if isinstance(out, Term) and isinstance(r, Term) else \
                    self.M.logical('and', [out, r], st, node)
            left = right
        return out

    def e_BoolOp(self, node, st, cx):
        isand = isinstance(node.op, ast.And)
        v = self.eval(node.values[0], st, cx)
        for nxt in node.values[1:]:
            c = self.truth(v, st, node)
            k = self.known(c, st)
            if k is not None:
                if k != isand:
                    return v
                v = self.eval(nxt, st, cx)
                continue
            s = st.copy()
            s.pc = st.pc + ((c,) if isand else (tnot(c),))
            try:
                w = self.eval(nxt, s, cx)
            except Dead:
                # the right operand always raises: the left decided
                st.pc = st.pc + ((tnot(c),) if isand else (c,))
                return v
            g = c if isand else tnot(c)
            m = self.merge_states(g, State(s.heap, st.pc), st)
            st.heap = m.heap
            bw = isinstance(w, Term) and kind(w) == 'bool'
            bv = isinstance(v, Term) and kind(v) == 'bool'
            if bw and bv:
                v = tand(v, w) if isand else tor(v, w)
            elif isand:
                v = self.merge_values(c, w, v)
            else:
                v = self.merge_values(c, v, w)
        return v

    def e_IfExp(self, node, st, cx):
        c = self.cond(node.test, st, cx)
        k = self.known(c, st)
        if k is not None:
            return self.eval(node.body if k else node.orelse, st, cx)
        a = st.copy()
        a.pc = st.pc + (c,)
        b = st.copy()
        b.pc = st.pc + (tnot(c),)
        va = vb = None
        try:
            va = self.eval(node.body, a, cx)
        except Dead:
            a = None
        try:
            vb = self.eval(node.orelse, b, cx)
        except Dead:
            b = None
        if a is None and b is None:
            raise Dead()
        if a is None or b is None:
            s = a or b
            st.heap, st.pc = s.heap, s.pc
            return vb if a is None else va
        pc = st.pc
        m = self.merge_states(c, a, b)
        st.heap = m.heap
        st.pc = pc
        return self.merge_values(c, va, vb)

    def e_JoinedStr(self, node, st, cx):
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(string(p.value))
            else:
                v = self.eval(p.value, st, cx)
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec, st, cx)
                    parts.append(self.M.format_spec(v, spec, st))
                else:
                    parts.append(self.M.str_of(v, st))
        return T.cat(*parts)

    def e_NamedExpr(self, node, st, cx):
        v = self.eval(node.value, st, cx)
        self.assign(node.target, v, st, cx, node)
        return v

    def e_Yield(self, node, st, cx):
        v = self.eval(node.value, st, cx) if node.value else NONE
        if cx.yields is None:
            raise Unsupported('yield outside generator')
        self.M.list_append(st, cx.yields, v, node)
        return NONE

    def e_YieldFrom(self, node, st, cx):
        v = self.eval(node.value, st, cx)
        self.M.list_extend(st, cx.yields, v, node)
        return NONE

    def _comp(self, node, st, cx, emit):
        """Run the generators of a comprehension; emit(st, cx) at the
        innermost level."""
        frame = self.newloc()
        st.heap[frame] = FrameObj({}, cx.frame, cx.module)
        cx2 = Ctx(cx.func, cx.module, frame, cx.depth)
        cx2.yields = cx.yields

        def gen(i, s):
            if i == len(node.generators):
                return emit(s, cx2)
            g = node.generators[i]
            it = self.eval(g.iter, s, cx2)

            def inner(s2):
                def check(k, s3):
                    if k == len(g.ifs):
                        return gen(i + 1, s3)
                    c = self.cond(g.ifs[k], s3, cx2)
                    return self.branch(c, s3, lambda x: check(k + 1, x),
                                       lambda x: x)
                return check(0, s2)
            return self.iterate(it, g.target, inner, s, cx2, node)
        out = gen(0, st)
        if out is None:
            raise Dead()
        if out is not st:
            st.heap, st.pc = out.heap, out.pc

    def iterate(self, it, target, inner, st, cx, node):
        """for target in it: inner  (no break/continue)."""
        if isinstance(it, Choice):
            it = self.refine(it, st)
        if isinstance(it, Choice):
            return self.branch(
                it.cond, st,
                lambda s: self.iterate(it.a, target, inner, s, cx, node),
                lambda s: self.iterate(it.b, target, inner, s, cx, node))
        vals = self.concrete(it, st)
        if vals is not None and len(vals) <= MAX_UNROLL:
            for v in vals:
                if st is None:
                    return None
                self.assign(target, v, st, cx, node)
                st = inner(st)
            return st
        segs = self.M.iter_segments(it, st, node)
        if len(segs) > 1:
            for s in segs:
                if st is None:
                    return None
                st = self.iterate(s, target, inner, st, cx, node)
            return st
        seq = self.M.as_seq(it, st, node)
        if seq.product is not None:
            def nest(seqs, done, s):
                sq, rest = seqs[0], seqs[1:]

                def body(s2, t):
                    v = done + (sq.elem(t),)
                    if rest:
                        return nest(rest, v, s2)
                    self.assign(target, Tup(v), s2, cx, node)
                    return inner(s2)
                return self.loop(sq.n, None, None, body, s, cx, node)
            return nest(seq.product, (), st)

        def body(s, t):
            self.assign(target, seq.elem(t), s, cx, node)
            return inner(s)
        return self.loop(seq.n, None, None, body, st, cx, node)

    def e_ListComp(self, node, st, cx):
        r = self.alloc(st, ListObj([]))

        def emit(s, c2):
            v = self.eval(node.elt, s, c2)
            self.M.list_append(s, r, v, node)
            return s
        self._comp(node, st, cx, emit)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, node, st, cx):
        r = self.e_ListComp(node, st, cx)
        o = st.heap[r.loc]
        st.heap[r.loc] = ListObj(o.segs, distinct=True)
        return r

    def e_DictComp(self, node, st, cx):
        r = self.alloc(st, DictObj({}))

        def emit(s, c2):
            k = self.term(self.eval(node.key, s, c2), s)
            v = self.eval(node.value, s, c2)
            o = s.heap[r.loc]
            items = dict(o.items)
            items[k] = v
            s.heap[r.loc] = DictObj(items, o.default)
            return s
        self._comp(node, st, cx, emit)
        return r

    # ------------------------------------------------------------ calls

    def e_Call(self, node, st, cx):
        # zero-argument super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super':
            return mk('super')
        f = self.eval(node.func, st, cx)
        args, kwargs = [], {}
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, cx)
                vals = self.concrete(v, st)
                if vals is None:
                    args.append(mk('star', self.term(v, st)))
                else:
                    args.extend(vals)
            else:
                args.append(self.eval(a, st, cx))
        for k in node.keywords:
            v = self.eval(k.value, st, cx)
            if k.arg is None:
                o = st.heap.get(v.loc) if isinstance(v, Ref) else None
                if isinstance(o, DictObj):
                    for kk, vv in o.items.items():
                        kwargs[const_value(kk) if kk.op == 'str'
                               else repr(kk)] = vv
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, cx, node)

    def call(self, f, args, kwargs, st, cx, node):
        if isinstance(f, Choice):
            f = self.refine(f, st)
        if f is NONE or isinstance(f, Term) and f.op in ('num', 'str') or \
                isinstance(f, Tup):
            self.fails('TypeError', 'a call of something that is no '
                       'function', st, node)
        if isinstance(f, Choice):
            c = f.cond
            a, b = st.copy(), st.copy()
            a.pc = st.pc + (c,)
            b.pc = st.pc + (tnot(c),)
            va = vb = None
            try:
                va = self.call(f.a, list(args), dict(kwargs), a, cx, node)
            except Dead:
                a = None
            try:
                vb = self.call(f.b, list(args), dict(kwargs), b, cx, node)
            except Dead:
                b = None
            if a is None and b is None:
                raise Dead()
            pc = st.pc
            if a is None or b is None:
                s = a or b
                st.heap, st.pc = s.heap, s.pc
                return va if b is None else vb
            m = self.merge_states(c, a, b)
            st.heap, st.pc = m.heap, pc
            return self.merge_values(c, va, vb)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, st, node)
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kwargs, st, cx,
                             node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, st, cx, node)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, st, cx,
                             node)
        if isinstance(f, Method):
            return self.M.method(f.obj, f.name, args, kwargs, st, cx, node)
        if isinstance(f, Ref):
            o = st.heap.get(f.loc)
            if isinstance(o, InstObj):
                v = self.class_attr(o.cls, '__call__', st)
                if v is not None:
                    return self.call(Bound(v, f), args, kwargs, st, cx, node)
        return self.M.call(f, args, kwargs, st, cx, node)

    def instantiate(self, cls, args, kwargs, st, cx, node):
        if any(isinstance(b, Term) and b.op == 'ext' and
               b.args[0].split('.')[-1].endswith(('Error', 'Exception'))
               for b in cls.bases):
            return mk('exc', cls.name)
        r = self.alloc(st, InstObj(cls, {}))
        init = self.class_attr(cls, '__init__', st)
        if init is not None:
            self.call(Bound(init, r), args, kwargs, st, cx, node)
        return r

    def bind_args(self, f, args, kwargs, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        open_ = any(isinstance(x, Term) and x.op == 'star' for x in args)
        for i, nm in enumerate(names):
            if args:
                out[nm] = args.pop(0)
            elif nm in kwargs:
                out[nm] = kwargs.pop(nm)
            else:
                j = i - (len(names) - len(f.defaults))
                if j >= 0:
                    out[nm] = f.defaults[j]
                elif '**' in kwargs:
                    out[nm] = mk('item', self.term(kwargs['**'], st),
                                 string(nm))
                else:
                    if not open_:
                        self.fails('TypeError', '%s is called without %s'
                                   % (f.name, nm), st, node)
                    out[nm] = mk('unbound', nm)
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(args)
        elif args and not open_:
            self.fails('TypeError', '%s is called with too many arguments'
                       % f.name, st, node)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                out[x.arg] = f.kwdefaults[x.arg]
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(st, DictObj(
                {string(k): v for k, v in kwargs.items()}))
        elif kwargs and '**' not in kwargs:
            self.fails('TypeError', '%s is called with the unknown %s'
                       % (f.name, ', '.join(sorted(kwargs))), st, node)
        return out

    def call_func(self, f, args, kwargs, st, node):
        if len(self.callstack) > MAX_DEPTH:
            return self.havoc(node, 'recursion limit in %s' % f.name)
        hook = self.M.override(f)
        if hook is not None:
            return hook(args, kwargs, st, node)
        bound = self.bind_args(f, args, kwargs, st, node)
        frame = self.newloc()
        st.heap[frame] = FrameObj(bound, f.frame, f.module)
        cx = Ctx(f.name, f.module, frame, 0)
        if f.isgen is None:
            f.isgen = not isinstance(f.node, ast.Lambda) and any(
                isinstance(x, (ast.Yield, ast.YieldFrom))
                for x in _own_nodes(f.node))
        q = '%s.%s' % (f.module, f.name)
        self.analysed[q] = self.analysed.get(q, 0) + 1
        self.callstack.append((f.module, f.name))
        nloops = len(self.loopstack)
        n = len(st.pc)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, st, cx)
            if f.isgen:
                cx.yields = self.alloc(st, ListObj([]))
            work = st.copy()
            end = self.exec_block(f.node.body, work, cx)
        finally:
            self.callstack.pop()
        exits = []
        for s, v, loops in cx.returns:
            extra = loops[nloops:]
            if extra:
                s, v = self.leave_loops(s, v, extra, n, st, node)
            exits.append((s, v))
        if end is not None:
            exits.append((end, NONE))
        out, val = self.join(exits, n)
        if out is None:
            raise Dead()
        st.heap = out.heap
        # what raising paths excluded stays known
        st.pc = out.pc if len(out.pc) >= n and out.pc[:n] == st.pc \
            else st.pc
        if len(exits) > 1:
            st.pc = st.pc[:n]
        if f.isgen:
            return cx.yields
        return val

    def leave_loops(self, s, v, loops, n, entry, node):
        """A return from inside a summarised loop."""
        c = self.rel(s, n)
        val = self.term(v, s)
        for var, cnt in reversed(loops):
            cnt = cnt if cnt is not None else T.INF
            val = T.binder('first', (var,), (), (cnt, c, val))
            c = T.binder('exists', (var,), (), (cnt, c))
            c = mk('exists', c)
        st = entry.copy()
        st.pc = entry.pc + (c,)
        return st, val


def _own_nodes(fn):
    stack = list(ast.iter_child_nodes(fn))
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))


def _load(t):
    """A Load-context copy of an assignment target."""
    n = ast.copy_location(ast.parse(ast.unparse(t), mode='eval').body, t)
    for x in ast.walk(n):
        ast.copy_location(x, t)
    return n


def pi_multiple(x):
    """A literal with many digits that is a simple multiple of pi (such as
    radians per degree) is that multiple."""
    from fractions import Fraction
    import math
    if x == 0 or x != x or len(repr(x).replace('.', '').strip('-0')) < 10:
        return None
    for r, e in ((x / math.pi, 1), (x * math.pi, -1)):
        q = Fraction(r).limit_denominator(1000)
        if q.numerator and abs(q.numerator) <= 1000 and \
                abs(float(q) - r) <= 1e-13 * abs(r):
            return T.mul(T.num(q), T.power(mk('fn', 'pi'), e))
    return None
