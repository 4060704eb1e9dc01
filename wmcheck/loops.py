"""Loop summaries.

A loop over an unknown number of iterations is summarised from one generic
iteration `t`.  Every cell the body changes (variable, attribute, array, list,
dictionary entry) is replaced by a placeholder for its value at the start of
iteration t, the body is analysed once more, and the recurrence
`next = body(t, placeholder)` is solved:

    next = p + d(t)              ->  p(t) = p0 + sum d
    next = p * d(t)              ->  p(t) = p0 * product d
    next = max(p, d(t))          ->  p(t) = max(p0, max d)
    next = v(t)                  ->  p(t) = v(t-1) after the first iteration
    next = v(t) if g(t) else p   ->  last write (solved for t when the guard
                                     pins or bounds t)
    list p + [x(t)]              ->  comprehension

Arrays are solved pointwise.  What cannot be solved becomes a `fix` term.
With the solved cells the body is analysed a last time and its events are
recorded as happening for every t.
"""

from . import terms as T
from .terms import (Term, mk, num, add, sub, mul, neg, ite, tand, tor, tnot,
                    TRUE, FALSE, NONE, subst, fresh, kind, to_poly,
                    from_poly, occurs)
from .values import (Tup, Ref, Choice, ListObj, DictObj, InstObj, FrameObj,
                     ArrObj, Value)


# ------------------------------------------------------------ linear parts

def linear(d, t):
    """(a, b) with d = a*t + b and a, b free of t, or None."""
    a, b = num(0), num(0)
    for m, c in to_poly(d).items():
        e = 0
        rest = []
        for x, k in m:
            if x is t:
                e = k
            elif occurs(t, x):
                return None
            else:
                rest.append((x, k))
        r = from_poly({tuple(rest): c})
        if e == 0:
            b = add(b, r)
        elif e == 1:
            a = add(a, r)
        else:
            return None
    return a, b


def conjuncts(c):
    return list(c.args) if c.op == 'and' else [] if c is TRUE else [c]


def sign(a, facts):
    if a.op == 'num':
        return (a.args[0] > 0) - (a.args[0] < 0)
    if facts is not None:
        if facts.positive(a):
            return 1
        if facts.positive(neg(a)):
            return -1
    return None


def window(c, t, facts):
    """('hi', U): c <=> t <= U;  ('lo', L): c <=> t >= L;  None."""
    if c.op == 'not' and c.args[0].op in ('lt', 'le'):
        d = c.args[0].args[0]
        strict = c.args[0].op == 'le'
        d = neg(d)               # not (d < 0) = -d <= 0
    elif c.op in ('lt', 'le'):
        d = c.args[0]
        strict = c.op == 'lt'
    else:
        return None
    ab = linear(d, t)
    if ab is None:
        return None
    a, b = ab
    s = sign(a, facts)
    if not s:
        return None
    x = T.div(neg(b), a)          # boundary
    if s > 0:                     # a t + b <= 0  <=> t <= x
        if strict:
            return 'hi', sub(T.ceil(x), num(1))
        return 'hi', T.floor(x)
    if strict:                    # t > x
        return 'lo', add(T.floor(x), num(1))
    return 'lo', T.ceil(x)


def always(c):
    """Conditions every way of satisfying c includes."""
    if c.op == 'and':
        out = []
        for x in c.args:
            out += [y for y in always(x) if y not in out]
        return out
    if c.op == 'or':
        out = None
        for x in c.args:
            a = always(x)
            out = a if out is None else [y for y in out if y in a]
        return out or []
    return [c]


def last_write(t, n, guard, value, prev, facts=None):
    """Value of x after `for t in range(n): if guard: x = value`."""
    n0 = n if n is not None else T.INF
    if guard is FALSE:
        return prev
    if not occurs(t, guard):
        if n0 is T.INF:
            return T.binder('last', (t,), (), (n0, guard, value, prev))
        return ite(tand(guard, T.lt(num(0), n0)),
                   subst(value, {t: sub(n0, num(1))}), prev)
    cs = conjuncts(guard)
    for k, c in enumerate(cs):
        if c.op != 'eq':
            continue
        ab = linear(c.args[0], t)
        if ab is None:
            continue
        a, b = ab
        if a.op == 'num' and a.args[0] == 0:
            continue
        if a.op == 'num' or (facts is not None and sign(a, facts)):
            sol = T.div(neg(b), a)
            extra = []
            if kind(sol) != 'int':
                sol = T.floor(sol)
                extra = [T.eq(add(mul(a, sol), b), num(0))]
            rest = [subst(x, {t: sol}) for j, x in enumerate(cs) if j != k]
            g = tand(*(extra + [T.le(num(0), sol)] + (
                [T.lt(sol, n0)] if n0 is not T.INF else []) + rest))
            return ite(g, subst(value, {t: sol}), prev)
    for c in always(guard):
        if c in cs or c.op != 'eq':
            continue
        ab = linear(c.args[0], t)
        if ab is not None and ab[0].op == 'num' and ab[0].args[0]:
            return last_write(t, n, tand(c, guard), value, prev, facts)
    dep = [c for c in cs if occurs(t, c)]
    free = [c for c in cs if not occurs(t, c)]
    ws = [window(c, t, facts) for c in dep]
    if all(w is not None for w in ws):
        his = [w[1] for w in ws if w[0] == 'hi']
        los = [w[1] for w in ws if w[0] == 'lo'] + [num(0)]
        if n0 is not T.INF:
            his.append(sub(n0, num(1)))
        if his:
            last = T.tmin(*his)
            ex = [T.le(lo, hi) for lo in los for hi in his]
            return ite(tand(*(free + ex)), subst(value, {t: last}), prev)
    if not occurs(t, value):
        ex = mk('exists', T.binder('exists', (t,), (), (n0, tand(*dep))))
        return ite(tand(*(free + [ex])), value, prev)
    inner = T.binder('last', (t,), (), (n0, tand(*dep), value, prev))
    return ite(tand(*free), inner, prev)


def count_true(t, conds, facts, n=None):
    """Least t >= 0 with some condition false (trip count)."""
    conds = [c for c in conds if c is not TRUE]
    limits, entry, hard = [], [], []
    if n is not None and n is not T.INF:
        limits.append(n)
    for c in conds:
        for x in conjuncts(c):
            if not occurs(t, x):
                entry.append(x)
                continue
            w = window(x, t, facts)
            if w is None:
                hard.append(x)
            elif w[0] == 'hi':
                limits.append(add(w[1], num(1)))
                entry.append(subst(x, {t: num(0)}))
            else:
                entry.append(subst(x, {t: num(0)}))
    if hard:
        k = T.binder('count', (t,), (), (n if n is not None else T.INF,
                                         tand(*conds)))
        return k
    if not limits:
        if not entry:
            return T.INF
        return ite(tand(*entry), T.INF, num(0))
    lim = T.tmin(*limits)
    if not entry:
        return lim
    return ite(tand(*entry), lim, num(0))


# ------------------------------------------------------------ recurrences

def delta(e, p):
    """d with e = p + d and p not in d (through conditionals)."""
    if e is p:
        return num(0)
    if e.op == 'ite':
        if occurs(p, e.args[0]):
            return None
        a, b = delta(e.args[1], p), delta(e.args[2], p)
        if a is None or b is None:
            return None
        return ite(e.args[0], a, b)
    if not T.numericish(e) or e.op in ('nan', 'none', 'tuple', 'list'):
        return None
    d = sub(e, p)
    if occurs(p, d):
        # p may hide in an ite summand
        for m, c in to_poly(e).items():
            if len(m) == 1 and m[0][1] == 1 and c == 1 and \
                    m[0][0].op == 'ite' and occurs(p, m[0][0]):
                rest = sub(e, m[0][0])
                if occurs(p, rest):
                    return None
                x = delta(m[0][0], p)
                if x is None:
                    return None
                return add(x, rest)
        return None
    return d


def factor(e, p):
    if e is p:
        return num(1)
    if e.op == 'ite':
        if occurs(p, e.args[0]):
            return None
        a, b = factor(e.args[1], p), factor(e.args[2], p)
        if a is None or b is None:
            return None
        return ite(e.args[0], a, b)
    poly = to_poly(e)
    if not poly:
        return None
    q = T.div(e, p)
    if occurs(p, q):
        return None
    return q


def guarded(e, p):
    """(g, v) with e = v if g else p, both free of p."""
    if not occurs(p, e):
        return TRUE, e
    if e is p:
        return FALSE, e
    if e.op == 'ite':
        c, a, b = e.args
        if occurs(p, c):
            return None
        ga, gb = guarded(a, p), guarded(b, p)
        if ga is None or gb is None:
            return None
        g = tor(tand(c, ga[0]), tand(tnot(c), gb[0]))
        if ga[0] is FALSE:
            return g, gb[1]
        if gb[0] is FALSE:
            return g, ga[1]
        return g, ite(c, ga[1], gb[1])
    return None


def extremum(e, p):
    """('min'|'max', d) with e = min(p, d) / max(p, d), d free of p."""
    for sgn in (1, -1):
        x = e if sgn > 0 else neg(e)
        q = p if sgn > 0 else neg(p)
        if x.op == 'min' and q in x.args:
            rest = [y for y in x.args if y is not q]
            if any(occurs(p, y) for y in rest):
                continue
            d = T.tmin(*rest)
            return ('min', d) if sgn > 0 else ('max', neg(d))
    if e.op == 'ite':
        c, a, b = e.args
        neg_ = False
        if c.op == 'not':
            c, neg_ = c.args[0], True
        if c.op in ('lt', 'le'):
            d = c.args[0]
            for x, other, swap in ((a, b, False), (b, a, True)):
                if other is p and not occurs(p, x):
                    # c holds -> x (or other when swapped)
                    up = d is sub(p, x) or T._normal_scale(sub(p, x)) is d
                    dn = d is sub(x, p) or T._normal_scale(sub(x, p)) is d
                    if up:      # p < x
                        r = 'max'
                    elif dn:
                        r = 'min'
                    else:
                        continue
                    if swap != neg_:
                        r = 'min' if r == 'max' else 'max'
                    return r, x
        # guarded extremum: ite(c, max(p, d), p)
        c, a, b = e.args
        if not occurs(p, c):
            if b is p:
                x = extremum(a, p)
                if x is not None:
                    inf = T.INF if x[0] == 'min' else neg(T.INF)
                    return x[0], ite(c, x[1], inf)
            if a is p:
                x = extremum(b, p)
                if x is not None:
                    inf = T.INF if x[0] == 'min' else neg(T.INF)
                    return x[0], ite(c, inf, x[1])
    return None


def solve(e, p, v0, t, facts):
    """f(k) = value at the start of iteration k, or None."""
    if e is p:
        return lambda k: v0
    if not occurs(p, e):
        def last(k):
            if k.op == 'num':
                j = k.args[0]
                return v0 if j == 0 else subst(e, {t: num(j - 1)})
            v = subst(e, {t: sub(k, num(1))})
            if v0 is None:
                return v
            if v is v0:
                return v
            return ite(T.lt(num(0), k), v, v0)
        return last
    d = delta(e, p)
    if d is not None and v0 is not None:
        def acc(k):
            u = fresh('u')
            return add(v0, T.total(u, k, subst(d, {t: u})))
        return acc
    x = extremum(e, p)
    if x is not None and v0 is not None:
        which, d = x

        def ext(k):
            u = fresh('u')
            r = T.close('rmin', (u,), (k, subst(
                d if which == 'min' else neg(d), {t: u})))
            if which == 'min':
                return T.tmin(v0, r)
            return T.tmax(v0, neg(r))
        return ext
    gv = guarded(e, p)
    if gv is not None:
        def lw(k):
            u = fresh('u')
            return last_write(u, k, subst(gv[0], {t: u}),
                              subst(gv[1], {t: u}), v0, facts)
        return lw
    q = factor(e, p) if T.numericish(e) and e.op != 'ite' else None
    if q is not None and v0 is not None:
        def prod(k):
            u = fresh('u')
            if not occurs(t, q) and k.op == 'num':
                return mul(v0, T.power(q, int(k.args[0])))
            return mul(v0, T.binder('prod', (u,), (), (k, subst(q,
                                                               {t: u}))))
        return prod
    return None


def _bind_rmin(vs, outer, inner):
    """min of body over 0 <= v < n (inf when empty)."""
    n, body = inner
    if body is T.INF:
        return body
    return None


T.BIND['rmin'] = _bind_rmin


# ------------------------------------------------------------ the loop

class Cell(object):
    __slots__ = ('key', 'v0', 'ph', 'kind', 'closed', 'shape', 'dtype',
                 'form', 'fresh0')

    def __init__(self, key, v0):
        self.key, self.v0 = key, v0
        self.ph = None
        self.kind = None
        self.closed = None      # k -> value (installed as abstract value)
        self.form = None


class Loop(object):

    def __init__(self, ip, n, bind, test, body, st, cx, node):
        self.ip, self.n, self.bind, self.test = ip, n, bind, test
        self.body, self.st, self.cx, self.node = body, st, cx, node
        self.M = ip.M
        self.t = fresh('t', nn=True)
        self.cells = {}
        self.first = None       # errors of a pass from the state before

    def unbound_first(self):
        """Names the first pass needs and later ones have."""
        from .interp import Event
        for e in self.first or ():
            loops = tuple(x for x in e.loops if x[0] is not self.t)
            if len(loops) == len(e.loops):
                continue
            f = Event(**{k: getattr(e, k) for k in Event.__slots__})
            f.loops = loops
            some = [T.lt(num(0), self.n)] if self.n is not None else []
            f.pc = tuple(some + [T.subst(x, {self.t: num(0)})
                                 for x in e.pc])
            f.args = [T.subst(x, {self.t: num(0)}) for x in e.args]
            self.ip.trace.append(f)

    # -- one pass over the body

    def one(self, start, record):
        from .interp import LoopCtl, Dead
        ip = self.ip
        trace, notes = ip.trace, ip.notes
        nret = len(self.cx.returns)
        tries = [(tc, len(tc.raised), len(tc.points)) for tc in ip.trystack]
        if not record:
            ip.trace, ip.notes = [], []
        ctl = LoopCtl()
        self.cx.loops.append(ctl)
        ip.loopstack.append((self.t, self.n))
        c = TRUE
        s = start
        npc = len(start.pc)
        try:
            try:
                if self.test is not None:
                    c = ip.cond(self.test, s, self.cx)
                    k = ip.known(c, s)
                    if k is True:
                        c = TRUE
                    if c is not TRUE:
                        s.pc = s.pc + (c,)
                if self.bind is not None:
                    self.bind(s, self.t)
                if callable(self.body):
                    out = self.body(s, self.t)
                else:
                    out = ip.exec_block(self.body, s, self.cx)
            except Dead:
                out = None
        finally:
            self.cx.loops.pop()
            ip.loopstack.pop()
            if not record and self.first is None:
                self.first = [e for e in ip.trace if e.name == '$fails' and
                              e.args[0].args[0] == 'NameError']
            if not record:
                ip.trace, ip.notes = trace, notes
                for tc, a, b in tries:
                    del tc.raised[a:]
                    del tc.points[b:]
        rets = self.cx.returns[nret:]
        if not record:
            del self.cx.returns[nret:]
        exits = [(x, NONE) for x in ctl.continues]
        if out is not None:
            exits.append((out, NONE))
        end, _ = ip.join(exits, npc) if exits else (None, None)
        return c, end, ctl.breaks, rets

    # -- cells

    def changed(self, start, end):
        keys = []
        for loc, o in start.heap.items():
            e = end.heap.get(loc)
            if e is o or e is None:
                continue
            if isinstance(o, FrameObj):
                for k, v in e.vars.items():
                    if k.startswith('$'):
                        continue
                    if k not in o.vars or not self.same(o.vars[k], v):
                        keys.append((loc, 'var', k))
                for k in o.vars:
                    if k not in e.vars and not k.startswith('$'):
                        keys.append((loc, 'var', k))
            elif isinstance(o, InstObj):
                for k, v in e.attrs.items():
                    if k not in o.attrs or not self.same(o.attrs[k], v):
                        keys.append((loc, 'attr', k))
            elif isinstance(o, DictObj):
                for k, v in e.items.items():
                    if k not in o.items or not self.same(o.items[k], v):
                        keys.append((loc, 'item', k))
            elif isinstance(o, ListObj):
                if len(o.segs) == len(e.segs) and all(
                        x is y or (x[0] == 'e' and y[0] == 'e' and
                                   self.same(x[1], y[1]))
                        for x, y in zip(o.segs, e.segs)):
                    continue
                keys.append((loc, 'list', ''))
            elif isinstance(o, ArrObj):
                if e.term is not o.term or e.mask is not o.mask or \
                        e.shape != o.shape:
                    keys.append((loc, 'arr', ''))
        return keys

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        return self.ip.same(a, b)

    def get(self, st, key):
        loc, what, k = key
        o = st.heap.get(loc)
        if what == 'var':
            return o.vars.get(k)
        if what == 'attr':
            return o.attrs.get(k)
        if what == 'item':
            return o.items.get(k)
        return o

    def put(self, st, key, v):
        loc, what, k = key
        o = st.heap[loc]
        if what in ('var', 'attr', 'item'):
            d = dict(o.vars if what == 'var' else o.attrs
                     if what == 'attr' else o.items)
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
            if what == 'var':
                st.heap[loc] = FrameObj(d, o.parent, o.module)
            elif what == 'attr':
                st.heap[loc] = InstObj(o.cls, d)
            else:
                st.heap[loc] = DictObj(d, o.default)
        else:
            st.heap[loc] = v

    # -- placeholders

    def objof(self, st, v):
        if isinstance(v, Ref):
            return st.heap.get(v.loc) or self.ip.base.heap.get(v.loc)
        if isinstance(v, (ArrObj, ListObj, DictObj)):
            return v
        return None

    def place(self, cell, st, e, est):
        """Install a placeholder for an unsolved cell."""
        v0 = cell.v0
        if v0 is None:
            self.put(st, cell.key, None)
            return
        o0 = self.objof(self.st, v0)
        oe = self.objof(est, e) if e is not None else None
        if isinstance(o0, ArrObj) and (e is None or isinstance(oe, ArrObj)):
            cell.form = 'arr'
            p = cell.ph or fresh('A', 'any', array=True)
            cell.ph = p
            a0 = o0 if o0.view is None else self.M.read_view(self.st, o0)
            nd = len(a0.shape) if a0.shape is not None else 2
            dt = a0.dtype
            if oe is not None and oe.view is None and oe.dtype != dt:
                dt = self.M.join_dtype(dt, oe.dtype)
            from .models import IX
            sh = a0.shape
            if oe is not None and cell.key[1] == 'var':
                ae = oe if oe.view is None else self.M.read_view(est, oe)
                if ae.shape is not None and a0.shape is not None and \
                        len(ae.shape) == len(a0.shape) and \
                        ae.shape != a0.shape:
                    sh = tuple(x if x is y else mk('shape', p, num(k))
                               for k, (x, y) in enumerate(
                                   zip(a0.shape, ae.shape)))
            o = ArrObj(mk('at', p, *IX[:nd]), sh, dt, a0.mask)
            if isinstance(v0, Ref):
                self.put(st, cell.key, self.ip.alloc(st, o))
            else:
                if o0.view is not None:
                    # writes through a view are writes to its base
                    return
                self.put(st, cell.key, o)
            return
        if isinstance(o0, ListObj) and (e is None or
                                        isinstance(oe, ListObj)):
            cell.form = 'list'
            p = cell.ph or fresh('L', 'any', listph=True)
            cell.ph = p
            o = ListObj([('t', p)], o0.distinct)
            if isinstance(v0, Ref):
                self.put(st, cell.key, self.ip.alloc(st, o))
            else:
                self.put(st, cell.key, o)
            return
        if isinstance(v0, Tup):
            if e is None or (isinstance(e, Tup) and
                             len(e.items) == len(v0.items) and
                             all(isinstance(x, Term) for x in v0.items)):
                if all(isinstance(x, Term) for x in v0.items):
                    cell.form = 'tup'
                    if cell.ph is None or len(cell.ph) != len(v0.items):
                        cell.ph = tuple(
                            fresh('p', self._kind(x)) for x in v0.items)
                    self.put(st, cell.key, Tup(cell.ph))
                    return
            cell.form = 'seq'
            p = cell.ph if isinstance(cell.ph, Term) else \
                fresh('L', 'any', listph=True)
            cell.ph = p
            self.put(st, cell.key, self.ip.alloc(
                st, ListObj([('t', p)])))
            return
        cell.form = 'term'
        k = cell.kind
        if k is None:
            k = self._kind(v0) if isinstance(v0, Term) else 'any'
        if e is not None:
            ke = self._kind(e) if isinstance(e, Term) else 'any'
            if ke != k:
                k = 'num' if {k, ke} <= {'int', 'num', 'bool'} else 'any'
        if cell.kind != k or cell.ph is None or \
                not isinstance(cell.ph, Term):
            cell.kind = k
            cell.ph = fresh('p', k)
        self.put(st, cell.key, cell.ph)

    def _kind(self, v):
        if isinstance(v, Term):
            k = kind(v)
            return k if k in ('int', 'num', 'bool', 'str') else 'any'
        return 'any'

    # -- driver

    def run(self):
        ip, st = self.ip, self.st
        if self.n is not None:
            z = ip.M.facts(st)
            if self.n.op == 'num' and self.n.args[0] <= 0:
                return st
        # 1. which cells change
        ends = {}
        for _ in range(12):
            s = self.start(ends)
            base = s.copy()
            c, end, breaks, rets = self.one(s, False)
            new = False
            outs = ([end] if end is not None else [])
            for o in outs:
                for key in self.changed(base, o):
                    if key not in self.cells:
                        v0 = self.get(self.st, key) \
                            if key[0] in self.st.heap else None
                        self.cells[key] = Cell(key, v0)
                        new = True
            kinds = False
            if end is not None:
                for key, cell in self.cells.items():
                    e = self.get(end, key) if key[0] in end.heap else None
                    old = ends.get(key)
                    ends[key] = (e, end)
                    if cell.closed is None and cell.form == 'term' and \
                            isinstance(e, Term) and cell.kind is not None:
                        ke = self._kind(e)
                        if ke != cell.kind and not (
                                cell.kind in ('num', 'any')):
                            kinds = True
                    if cell.form in ('tup',) and not (
                            isinstance(e, Tup) and
                            len(e.items) == len(cell.v0.items)):
                        kinds = True
                        cell.ph = None
            if new or kinds:
                continue
            if end is None:
                break
            if not self.solve_some(end, base):
                break
            if all(x.closed is not None for x in self.cells.values()):
                break
        # 2. what is left has no closed form
        for key, cell in self.cells.items():
            if cell.closed is None:
                self.unsolved(cell, ends.get(key, (None, None))[0],
                              ends.get(key, (None, None))[1])
        # 3. record
        self.unbound_first()
        s = self.start(ends)
        npc = len(s.pc)
        c, end, breaks, rets = self.one(s, True)
        return self.finish(c, end, breaks, rets, npc)

    def start(self, ends):
        s = self.st.copy()
        for key, cell in self.cells.items():
            if cell.closed is not None:
                self.put(s, key, cell.closed(self.t, s))
            else:
                e, est = ends.get(key, (None, None))
                self.place(cell, s, e, est)
        return s

    def phs(self):
        out = []
        for c in self.cells.values():
            if c.closed is None and c.ph is not None:
                out.extend(c.ph if isinstance(c.ph, tuple) else (c.ph,))
        return out

    def mentions(self, v, st, phs, seen=None):
        """Some placeholder occurs in the value."""
        if seen is None:
            seen = set()
        if v is None or not phs:
            return False
        if isinstance(v, Term):
            return any(occurs(p, v) for p in phs)
        if isinstance(v, Tup):
            return any(self.mentions(x, st, phs, seen) for x in v.items)
        if isinstance(v, Choice):
            return self.mentions(v.cond, st, phs, seen) or \
                self.mentions(v.a, st, phs, seen) or \
                self.mentions(v.b, st, phs, seen)
        if isinstance(v, Ref):
            if v.loc in seen:
                return False
            seen.add(v.loc)
            return self.mentions(st.heap.get(v.loc), st, phs, seen)
        if isinstance(v, ArrObj):
            if v.view is not None:
                return self.mentions(st.heap.get(v.view[0]), st, phs, seen)
            return any(occurs(p, v.term) or (v.mask is not None and
                                             occurs(p, v.mask))
                       for p in phs)
        if isinstance(v, ListObj):
            for s in v.segs:
                if s[0] == 'e':
                    if self.mentions(s[1], st, phs, seen):
                        return True
                elif s[0] == 'c':
                    if self.mentions(s[4], st, phs, seen) or \
                            self.mentions(s[3], st, phs, seen) or any(
                                self.mentions(x, st, phs, seen)
                                for x in s[2]):
                        return True
                elif self.mentions(s[1], st, phs, seen):
                    return True
            return False
        if isinstance(v, DictObj):
            return any(self.mentions(x, st, phs, seen)
                       for x in v.items.values())
        if isinstance(v, InstObj):
            return any(self.mentions(x, st, phs, seen)
                       for x in v.attrs.values())
        if isinstance(v, Value):
            try:
                return self.mentions(self.ip.term(v, st), st, phs, seen)
            except Exception:
                return False
        return False

    def solve_some(self, end, base):
        """Solve cells that depend on no other unsolved cell."""
        progress = False
        allp = self.phs()
        for key, cell in list(self.cells.items()):
            if cell.closed is not None:
                continue
            e = self.get(end, key) if key[0] in end.heap else None
            own = cell.ph if isinstance(cell.ph, tuple) else (cell.ph,) \
                if cell.ph is not None else ()
            others = [p for p in allp if p not in own]
            if self.mentions(e, end, others):
                continue
            f = self.closed_form(cell, e, end)
            if f is not None:
                cell.closed = f
                progress = True
        return progress

    def tfacts(self, shape=None):
        f = self.M.facts(self.st).copy()
        f.ge(self.t)
        if self.n is not None and self.n is not T.INF:
            f.ge(sub(self.n, self.t), num(1))
        if shape is not None:
            from .models import IX
            for k, d in enumerate(shape):
                f.ge(IX[k])
                f.ge(sub(d, IX[k]), num(1))
        return f

    def closed_form(self, cell, e, end):
        ip, M, t = self.ip, self.M, self.t
        v0 = cell.v0
        key = cell.key
        if e is None:
            return None if v0 is not None else (lambda k, s: None)
        if key[1] == 'item' and v0 is None and T.occurs(t, key[2]):
            return self.dict_seq(cell, e, end)
        own = cell.ph if isinstance(cell.ph, tuple) else (cell.ph,) \
            if cell.ph is not None else ()
        if v0 is None or not self.mentions(e, end, own):
            # temporary: value of the previous iteration
            return self.temp(cell, e, end)
        if cell.form == 'term':
            if not isinstance(e, Term) or not isinstance(v0, Term):
                return None
            f = solve(e, cell.ph, v0, t, self.tfacts())
            if f is None:
                return None
            return lambda k, s: f(k)
        if cell.form == 'tup':
            fs = []
            if not isinstance(e, Tup):
                return None
            for p, x, y in zip(cell.ph, v0.items, e.items):
                if not isinstance(y, Term) or any(
                        occurs(q, y) for q in cell.ph if q is not p):
                    return None
                f = solve(y, p, x, t, self.tfacts())
                if f is None:
                    return None
                fs.append(f)
            return lambda k, s: Tup([f(k) for f in fs])
        if cell.form == 'arr':
            return self.solve_arr(cell, e, end)
        if cell.form in ('list', 'seq'):
            return self.solve_list(cell, e, end)
        return None

    def temp(self, cell, e, end):
        M, t, v0 = self.M, self.t, cell.v0
        heap = end.heap
        if isinstance(e, (ArrObj, ListObj, DictObj)):
            # heap object fully overwritten
            o0 = v0
            if isinstance(e, ArrObj) and isinstance(o0, ArrObj) and \
                    e.view is None and o0.view is None:
                f = solve(e.term, cell.ph or fresh('x'), o0.term, t,
                          self.tfacts(e.shape))
                if f is None:
                    return None
                return lambda k, s: ArrObj(f(k), e.shape, e.dtype, e.mask)

            def fo(k, s):
                self.borrow(s, heap)
                return M.subst_obj(e, {t: sub(k, num(1))}, s)
            return fo

        def f(k, s):
            self.borrow(s, heap)
            if k.op == 'num' and k.args[0] == 0:
                return v0
            v = M.subst_value(e, {t: sub(k, num(1))}, s)
            if v0 is None:
                return v
            return self.ip.merge_values(T.lt(num(0), k), v, v0)
        return f

    def borrow(self, s, heap):
        """Objects created by the body are visible where its values go."""
        for loc, o in heap.items():
            if loc not in s.heap:
                s.heap[loc] = o

    def dict_seq(self, cell, e, end):
        return None

    def solve_arr(self, cell, e, end):
        from .models import IX
        M, t = self.M, self.t
        oe = self.objof(end, e)
        o0 = self.objof(self.st, cell.v0)
        if not isinstance(oe, ArrObj):
            return None
        ae = oe if oe.view is None else M.read_view(end, oe)
        a0 = o0 if o0.view is None else M.read_view(self.st, o0)
        nd = len(a0.shape) if a0.shape is not None else 2
        P = mk('at', cell.ph, *IX[:nd])
        f = None
        Q = fresh('P', 'num')
        # an accumulator is solved pointwise; reads elsewhere block that
        body = subst(ae.term, {P: Q})
        if not occurs(cell.ph, body):
            f = solve(body, Q, a0.term, t, self.tfacts(a0.shape))
        if f is None:
            f = self.single_write(cell, ae, a0, P, Q, body)
        if f is None and not occurs(cell.ph, body) and \
                not any(occurs(p, body) for p in self.phs()):
            # each element is a fold of its own values: uninterpreted, but
            # the same on both sides when the steps are the same
            def f(k):
                return self._fix(k, body, Q, a0.term)
        if f is None:
            return None
        if ae.shape is not None and any(occurs(cell.ph, d)
                                        for d in ae.shape):
            return None
        sh = a0.shape
        dt = ae.dtype
        mask = a0.mask

        def g(k, s):
            c = M.simp(f(k), sh, s)
            o = ArrObj(c, sh, dt, mask)
            if isinstance(cell.v0, Ref):
                return self.ip.alloc(s, o)
            return o
        return g

    def single_write(self, cell, ae, a0, P, Q, body):
        """Each element is written at most once (the guard pins t): reads of
        the array at its own index see the initial content."""
        from .models import IX
        t = self.t
        if occurs(cell.ph, body) or body.op != 'ite':
            return None
        c, a, b = body.args
        if occurs(Q, c):
            return None
        if b is Q:
            g, v = c, a
        elif a is Q:
            g, v = tnot(c), b
        else:
            return None
        pinned = False
        for x in conjuncts(g):
            if x.op == 'eq':
                ab = linear(x.args[0], t)
                if ab is not None and sign(ab[0], self.tfacts()):
                    pinned = True
        if not pinned:
            return None
        v = subst(v, {Q: a0.term})

        def f(k):
            u = fresh('u')
            return last_write(u, k, subst(g, {t: u}), subst(v, {t: u}),
                              a0.term, self.tfacts(a0.shape))
        return f

    def solve_list(self, cell, e, end):
        M, t = self.M, self.t
        oe = self.objof(end, e)
        if isinstance(e, Tup):
            oe = ListObj([('e', x) for x in e.items])
        if not isinstance(oe, ListObj) or not oe.segs:
            return None
        s0 = oe.segs[0]
        if s0[0] != 't' or s0[1] is not cell.ph:
            return None
        new = oe.segs[1:]
        if any(self.mentions(ListObj([x]), end, (cell.ph,)) for x in new):
            return None
        o0 = self.objof(self.st, cell.v0)
        segs0 = o0.segs if o0 is not None else tuple(
            ('e', x) for x in cell.v0.items)
        distinct = o0.distinct if o0 is not None else False
        heap = end.heap
        ip = self.ip

        def f(k, s):
            self.borrow(s, heap)
            out = list(segs0)
            if k.op == 'num' and k.args[0] == 0:
                pass
            elif len(new) == 1 and new[0][0] in ('e', 'c'):
                u = fresh('u')
                x = new[0]
                if x[0] == 'e':
                    out.append(('c', (u,), (k,), TRUE,
                                M.subst_value(x[1], {t: u}, s)))
                else:
                    out.append(('c', (u,) + tuple(x[1]), (k,) + tuple(
                        subst(y, {t: u}) for y in x[2]),
                        subst(x[3], {t: u}),
                        M.subst_value(x[4], {t: u}, s)))
            elif new:
                u = fresh('u')
                lt = ip.list_term(ListObj(new), end)
                out.append(('t', T.close('flat', (u,), (
                    k, subst(lt, {t: u})))))
            o = ListObj(out, distinct)
            if isinstance(cell.v0, (Ref, Tup)):
                return ip.alloc(s, o)
            return o
        return f

    def unsolved(self, cell, e, est):
        """No closed form: an explicit fix term."""
        ip, t = self.ip, self.t
        v0 = cell.v0
        ip.note(self.node, 'no closed form for %s' % (cell.key[2],))
        if isinstance(e, Term) and isinstance(v0, Term) and \
                cell.form == 'term' and cell.ph is not None and \
                not any(occurs(p, e) for p in self.phs()
                        if p is not cell.ph):
            def f(k, s):
                return T.close('fix', (fresh('u'), cell.ph),
                               (k, e), outer=(v0,)) if False else \
                    self._fix(k, e, cell.ph, v0)
            cell.closed = f
            return
        tag = ip.newloc()
        o0 = self.objof(self.st, v0)

        def h(k, s):
            if isinstance(o0, ArrObj):
                from .models import IX
                a0 = o0 if o0.view is None else \
                    self.M.read_view(self.st, o0)
                nd = len(a0.shape) if a0.shape is not None else 2
                o = ArrObj(mk('at', mk('havoc', 'loop', tag, k), *IX[:nd]),
                           a0.shape, a0.dtype, a0.mask)
                return ip.alloc(s, o) if isinstance(v0, Ref) else o
            if isinstance(o0, ListObj):
                o = ListObj([('t', mk('havoc', 'loop', tag, k))],
                            o0.distinct)
                return ip.alloc(s, o) if isinstance(v0, Ref) else o
            if isinstance(o0, DictObj):
                return v0
            kd = 'int' if cell.kind == 'int' else None
            hv = mk('havoc', 'loop', tag, k)
            if kd == 'int':
                hv = mk('trunc', hv)
            return hv
        cell.closed = h

    def _fix(self, k, e, p, v0):
        u, q = fresh('u'), fresh('q', kind(p) if kind(p) in (
            'int', 'num', 'bool', 'str') else 'any')
        return T.binder('fix', (u, q), (k, v0),
                        (subst(e, {self.t: u, p: q}),))

    # -- after the loop

    def at_exit(self, k):
        """State after k complete iterations."""
        s = self.st.copy()
        for key, cell in self.cells.items():
            v = cell.closed(k, s)
            if v is None and key[1] in ('var', 'attr', 'item'):
                continue
            self.put(s, key, v)
        return s

    def finish(self, c, end, breaks, rets, npc):
        ip, t = self.ip, self.t
        facts = self.tfacts()
        conds = []
        if self.test is not None and c is not TRUE:
            conds.append(c)
        bconds = [ip.rel(b, npc) for b in breaks]
        for b in bconds:
            conds.append(tnot(self.strip(b, c)))
        rconds = []
        for s, v, loops in rets:
            rconds.append(self.strip(ip.rel(s, npc), c))
        n = self.n
        if not breaks and (self.test is None or c is TRUE):
            if n is None:
                # while True without break: left by return only
                self.ret_guard(rconds)
                return None if end is not None or rets else None
            out = self.at_exit(n)
            return self.after(out, rconds, n)
        if end is None and not breaks:
            # at most the test stops it before the first iteration
            out = self.st.copy()
            stop = tnot(subst(c, {t: num(0)})) if self.test is not None \
                else T.le(n, num(0))
            out.pc = self.st.pc + (stop,)
            return out
        k = count_true(t, conds, facts, n)
        exits = []
        if n is not None:
            s = self.at_exit(n)
            s.pc = self.st.pc + (T.le(n, k),)
            exits.append((T.le(n, k), s))
        if self.test is not None and c is not TRUE:
            s = self.at_exit(k)
            cc = tnot(subst(c, {t: k}))
            exits.append((cc, s))
        for b, bc in zip(breaks, bconds):
            s = self.freeze(b, k)
            exits.append((subst(self.strip(bc, c), {t: k}), s))
        out = exits[-1][1]
        out = State_(out.heap, self.st.pc)
        for cond, s in reversed(exits[:-1]):
            out = ip.merge_states(cond, State_(s.heap, self.st.pc), out)
        out = State_(out.heap, self.st.pc)
        return self.after(out, rconds, k)

    def ret_guard(self, rconds):
        pass

    def strip(self, cond, c):
        """Break condition without the loop test it follows."""
        if c is TRUE:
            return cond
        cs = [x for x in conjuncts(cond) if x not in conjuncts(c)]
        return tand(*cs)

    def freeze(self, s, k):
        """State of iteration k."""
        M, t = self.M, self.t
        out = self.st.copy()
        self.borrow(out, s.heap)
        mp = {t: k}
        for loc, o in s.heap.items():
            b = self.st.heap.get(loc)
            if b is o:
                continue
            if isinstance(o, FrameObj):
                vs = {}
                for n, v in o.vars.items():
                    vs[n] = v if n.startswith('$') else \
                        M.subst_value(v, mp, out)
                out.heap[loc] = FrameObj(vs, o.parent, o.module)
            else:
                out.heap[loc] = M.subst_obj(o, mp, out)
        return out

    def after(self, out, rconds, k):
        if rconds:
            any_ret = tor(*rconds)
            if k is not None:
                ex = T.binder('exists', (self.t,), (), (
                    k if k is not None else T.INF, any_ret))
                out.pc = out.pc + (tnot(mk('exists', ex)),)
        return out


def State_(heap, pc):
    from .interp import State
    return State(heap, pc)
