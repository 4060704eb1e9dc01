"""Comparing what the tree computes with what a property specifies.

A *session* loads the current tree (and the specification modules of a rule)
into one abstract interpreter.  A *subject* is a function of the tree analysed
with opaque parameters; its *reference* is the specification analysed with the
same parameters.  The obligations of a rule are equalities between the two
summaries: results, contents of arrays, recorded external effects.
"""

import os
import sys
import time

from . import load, logic, terms as T, witness
from .interp import Interp, State, Ctx, Dead, Unsupported
from .boolean import Budget
from .models import IX, elem
from .terms import Term, mk, num, string, TRUE, FALSE, NONE
from .values import (Value, Tup, Ref, Func, Bound, Cls, Choice, ListObj,
                     DictObj, InstObj, ArrObj, Seq, Range)

sys.setrecursionlimit(30000)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WMCHECK_REPO', '/repo')


class Anchor(Exception):
    """A function or class the property is anchored at is gone."""


class Outcome(object):
    """Summary of one analysed call."""

    def __init__(self, st, value, trace, dead=False, args=()):
        self.st, self.value, self.trace = st, value, trace
        self.dead, self.args = dead, args

    def events(self, *names):
        return [e for e in self.trace if e.name in names]


class Session(object):

    def __init__(self, specs=(), root=None):
        self.root = root or REPO
        self.tree = load.Tree(self.root)
        self.repo_modules = set(self.tree.modules)
        for s in specs:
            self.tree.add('spec_' + s, os.path.join(HERE, 'specs',
                                                    s + '.py'))
        self.ip = Interp(self.tree)
        self.M = self.ip.M
        self._changed = {}
        self.failed = []          # errors the analysed code ends with
        self.facts = []           # callables adding assumptions

    # -- anchors

    def module(self, name):
        if name not in self.tree.modules:
            raise Anchor('module %s is not in the tree' % name)
        return self.ip.load(name)

    def func(self, module, name):
        m = self.module(module)
        v = self.ip.base.heap[m.frame].vars.get(name)
        if '.' in name:
            c, name2 = name.split('.')
            k = self.ip.base.heap[m.frame].vars.get(c)
            if not isinstance(k, Cls):
                raise Anchor('class %s.%s is not in the tree' % (module, c))
            v = self.ip.class_attr(k, name2, self.ip.base)
        if v is None:
            raise Anchor('%s.%s is not in the tree' % (module, name))
        return v

    def spec(self, module, name):
        return self.func('spec_' + module, name)

    def where(self, f):
        if isinstance(f, Func):
            return '%s:%d %s' % (self.relpath(f.module), f.node.lineno,
                                 f.name)
        return str(f)

    def relpath(self, module):
        s = self.tree.modules.get(module)
        return self.tree.relpath(s.path) if s else module

    def at(self, ev):
        return '%s:%s in %s' % (self.relpath(ev.module),
                                getattr(ev.node, 'lineno', '?'), ev.func)

    # -- running

    def state(self):
        return State(dict(self.ip.base.heap))

    def call(self, f, args=(), kwargs=None, st=None, pc=()):
        """Summary of f(*args); args are values or callables st -> value."""
        ip = self.ip
        st = st or self.state()
        st.pc = tuple(pc)
        vals = [a(st) if callable(a) and not isinstance(a, (Value, Term))
                else a for a in args]
        kw = {k: (a(st) if callable(a) and not isinstance(a, (Value, Term))
                  else a) for k, a in (kwargs or {}).items()}
        saved = ip.trace, ip.loopstack, ip.trystack
        ip.trace, ip.loopstack, ip.trystack = [], [], []
        mod = getattr(f, 'module', None) or 'all_multipliers'
        m = ip.mods.get(mod)
        cx = Ctx('<rule>', mod, m.frame if m else None, 0)
        ip.callstack.append((mod, '<rule>'))
        try:
            try:
                v = ip.call(f, vals, kw, st, cx, getattr(f, 'node', None))
                dead = False
            except Dead:
                v, dead = NONE, True
            tr = ip.trace
        finally:
            ip.trace, ip.loopstack, ip.trystack = saved
            ip.callstack.pop()
        self.failed.extend(e for e in tr if e.name == '$fails')
        return Outcome(st, v, tr, dead, vals)

    def assume(self, f):
        """Assumption about the inputs, used by the whole session."""
        self.M.assumptions.append(f)
        self.M._facts_cache.clear()
        self.facts.append(f)

    def base_facts(self):
        f = logic.Facts()
        for a in self.facts:
            a(f)
        return f

    # -- values

    def array(self, name, shape=None, nd=2, dtype=None, **flags):
        x = T.sym(name, 'num', **flags)

        def g(st):
            return self.M.opaque_array(st, x, shape, dtype, nd)
        return g

    def vector(self, name, n=None, **flags):
        x = T.sym(name, 'num', **flags)
        sh = (n if n is not None else mk('shape', x, num(0)),)
        return lambda st: self.M.opaque_array(st, x, sh, None, 1)

    def shape(self, name, k, **flags):
        return mk('shape', T.sym(name, 'num', **flags), num(k))

    def term(self, out, v=None):
        return strip(self.ip.term(out.value if v is None else v, out.st))

    # -- opaque callees

    def opaque(self, module, name, result='value', like=None, params=None,
               shape=None, effect=False, state=False):
        """Summarise calls of module.name by one uninterpreted symbol of its
        (closed) arguments.  result: 'value' | 'array' (shape of parameter
        `like`, or `shape(bound terms)`) | ('tuple', results...).  With state,
        the attributes of an object among the arguments are arguments."""
        f = self.func(module, name)
        if not isinstance(f, Func):
            raise Anchor('%s.%s is not a plain function' % (module, name))
        a = f.node.args
        order = params or [x.arg for x in a.posonlyargs + a.args] + (
            [a.vararg.arg] if a.vararg else [])
        q = '%s.%s' % (f.module, f.name)
        ip, M = self.ip, self.M
        short = name

        def hook(args, kwargs, st, node):
            b = ip.bind_args(f, args, kwargs, st, node)
            vals = [b.get(p, NONE) for p in order]
            ts = [ip.term(v, st) for v in vals]
            for v in vals if state else ():
                o = ip.obj(st, v) if isinstance(v, Ref) else None
                if isinstance(o, InstObj):
                    for n in sorted(o.attrs):
                        ts.append(mk('kw', n, ip.term(o.attrs[n], st)))
            t = mk('call', 'repo:' + short, *ts)
            ev = ip.event('repo:' + short, vals, {}, st, node)
            ev.terms = ts
            changed = self._changes(f, q, b, st, node)
            r = self._result(result, like, shape, t, b, st)
            ev.result = r
            for p, same in changed:
                x = t if same else mk('call', 'repo:%s.%s' % (short, p), *ts)
                for cond, ref in self._leaves(b[p]):
                    o = st.heap.get(ref.loc)
                    if not isinstance(o, ArrObj):
                        continue
                    a = o if o.view is None else M.read_view(st, o)
                    nd = len(a.shape) if a.shape else 2
                    M.write_full(st, ref, T.ite(
                        cond, elem(x, *IX[:nd]), a.term), node)
                    if ref.loc in M.aliases:
                        M.shared_store(ref, st, node)
            if M.step_errors:
                ip.raise_point(st, ev.name, M.step_errors, *ts)
            return r
        M.overrides[q] = hook
        return f

    def _changes(self, f, q, b, st, node):
        """Arrays among the arguments that the function itself changes in
        place, with: does the argument end up as the result?"""
        ip, M = self.ip, self.M
        arrays = {}
        for p, v in b.items():
            if any(isinstance(st.heap.get(r.loc), ArrObj)
                   for _, r in self._leaves(v)):
                o = M.arr_of(v, st)
                if o is not None:
                    arrays[p] = o
        if not arrays:
            return ()
        key = (q, tuple(sorted(arrays)))
        if key in self._changed:
            found = self._changed[key]
            return [(p, s) for p, s in found if p in arrays]
        self._changed[key] = []
        hook = M.overrides.pop(q)
        notes = list(ip.notes)
        st2 = st.copy()
        args, first = dict(b), {}
        for p, o in arrays.items():
            args[p] = M.opaque_array(
                st2, T.sym('given:' + p, 'num'), o.shape, o.dtype,
                len(o.shape) if o.shape else 2)
            first[p] = st2.heap[args[p].loc].term
        saved = ip.trace, ip.loopstack, ip.trystack
        calls = list(ip.callstack)
        ip.trace, ip.loopstack, ip.trystack = [], [], []
        try:
            star = f.node.args.vararg or f.node.args.kwarg
            v = NONE if star else ip.call(f, [], dict(args), st2, Ctx(
                '<rule>', f.module, ip.mods[f.module].frame, 0), node)
            r = st2.heap.get(v.loc) if isinstance(v, Ref) else None
            for p in arrays:
                o = st2.heap.get(args[p].loc)
                if isinstance(o, ArrObj) and o.term != first[p]:
                    self._changed[key].append((p, isinstance(
                        r, ArrObj) and r.term == o.term))
        except (Dead, Unsupported, Budget):
            pass
            pass
        finally:
            ip.trace, ip.loopstack, ip.trystack = saved
            ip.callstack[:] = calls
            ip.notes[:] = notes
            M.overrides[q] = hook
        return self._changed[key]

    def _leaves(self, v, cond=TRUE):
        if isinstance(v, Ref):
            return [(cond, v)]
        if isinstance(v, Choice):
            self.M.shared_conds.add(v.cond)
            return self._leaves(v.a, T.tand(cond, v.cond)) + \
                self._leaves(v.b, T.tand(cond, T.tnot(v.cond)))
        return []

    def _result(self, result, like, shape, t, b, st):
        ip, M = self.ip, self.M
        if result == 'none':
            return NONE
        if result == 'array':
            if shape is not None:
                sh = shape(b, st)
            elif like is not None:
                o = M.arr_of(b[like], st)
                sh = o.shape if o is not None else None
            else:
                sh = None
            return M.opaque_array(st, t, sh)
        if isinstance(result, tuple) and result[0] == 'tuple':
            return Tup([self._result(r, like, shape, mk('item', t, num(k)),
                                     b, st)
                        for k, r in enumerate(result[1:])])
        if result == 'num':
            return mk('fn', 'num', t)
        return t


# ------------------------------------------------------------ equality

def strip(t):
    """Forget the serial numbers of effects."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term) or not x.args:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'B':
            inner = tuple(go(y) for y in x.args[3])
            outer = tuple(go(y) for y in x.args[2])
            r = x if inner == x.args[3] and outer == x.args[2] else \
                T._rb_B(x.args[0], x.args[1], outer, inner)
        elif x.op == 'eff':
            r = mk('eff', x.args[0], 0, *[go(y) for y in x.args[2:]])
        else:
            new = tuple(go(y) for y in x.args)
            r = x if new == x.args else T.rebuild(x, new)
        memo[x] = r
        if r is not x and x in T.SHAPES and r not in T.SHAPES:
            T.SHAPES[r] = go(T.SHAPES[x])
        return r
    return go(t)


class Verdict(object):
    def __init__(self, status, detail='', regions=0):
        self.status, self.detail, self.regions = status, detail, regions

    def __repr__(self):
        return '%s %s' % (self.status, self.detail)


def _res(status, detail='', regions=0):
    return Verdict(status, detail, regions)


FIRST = 300                     # regions
SOON = 5


def decide(a, b, facts=None, domains=None, tries=400, budget=3000,
           small=6, nan=True):
    """Is repo term a equal to specification term b?"""
    a, b = strip(a), strip(b)
    if a is b:
        return _res('ok', '', 1)
    facts = facts or logic.Facts()
    q = logic.Equal(min(budget, FIRST), nan)
    try:
        try:
            mm = q(a, b, facts.copy())
        except logic.Budget:
            if budget <= FIRST:
                raise
            # a long proof is only tried when no difference is found soon
            if not witness.foreign(a, b):
                w = witness.guided(a, b, facts, domains, None, small,
                                   seconds=SOON)
                if w is not None:
                    return _res('violation', '%r' % w, q.regions)
            q = logic.Equal(budget, nan)
            mm = q(a, b, facts.copy())
    except logic.Budget:
        mm = 'too many regions'
    except RecursionError:
        mm = 'recursion'
    if mm is None:
        return _res('ok', '', q.regions)
    for_ = witness.foreign(a, b)
    if for_:
        return _res('undecided', 'uses operations without a model here: %s' %
                    ', '.join(sorted(' '.join(map(str, x)) for x in for_)),
                    q.regions)
    w = witness.search(a, b, facts, domains, tries, small=small,
                       region=getattr(mm, 'facts', None))
    if w is None:
        w = witness.guided(a, b, facts, domains,
                           getattr(mm, 'facts', None), small)
    if w is None:
        return _res('undecided', 'no closed proof of equality and no '
                    'counter-example: %s' % short(mm), q.regions)
    return _res('violation', '%r' % w, q.regions)


def implied(c, facts=None, domains=None, tries=400, budget=3000, small=6):
    """Does condition c hold for all inputs satisfying the facts?"""
    return decide(c, TRUE, facts, domains, tries, budget, small)


def short(x, n=400):
    s = repr(x) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n - 3] + '...'
