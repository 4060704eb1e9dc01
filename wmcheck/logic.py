"""Facts, entailment and equality of terms.

* `Facts` is a conjunction of linear constraints over monomials (a convex
  polyhedron, decided by Fourier-Motzkin elimination with integer tightening)
  plus truth values of opaque conditions.
* `equal(a, b, facts)` decides equality of two terms: the conditions they
  contain cut the input space into regions, inconsistent regions are pruned,
  and in every remaining region both terms must have the same normal form.
"""

from fractions import Fraction
import math

from . import terms as T
from .terms import (mk, num, to_poly, from_poly, add, sub, neg, mul, kind,
                    is_int, lt0, le0, eq0, tnot, tand, tor, ite, TRUE, FALSE,
                    subst, subterms, show)

MAXC = 220


# ------------------------------------------------------------ linear systems

def _mono_int(m):
    return all(e > 0 and kind(a) in ('int', 'bool') for a, e in m)


_PRE = {}


def _prepare(c, strict):
    """Constraint sum(c[m]*m) + c[()] >= 0 (or > 0) as (coefficients by
    monomial with coprime integers, constant, strict)."""
    key = (tuple(c.items()), strict)
    r = _PRE.get(key)
    if r is not None:
        return r
    k0 = c.get((), 0)
    vs = [(k, v) for k, v in c.items() if k != () and v]
    l = 1
    for k, v in vs:
        d = v.denominator
        l = l * d // math.gcd(l, d)
    co = {k: int(v * l) for k, v in vs}
    r = (co, k0 * l, strict)
    if len(_PRE) > 200000:
        _PRE.clear()
    _PRE[key] = r
    return r


def feasible(cons, query=None):
    """cons: list of (dict monomial->Fraction, strict); True when the
    elimination finds no contradiction.  With a query constraint only the
    constraints connected with it are used."""
    pre = [_prepare(c, s) for c, s in cons]
    if query is not None:
        q = _prepare(*query)
        todo = set(q[0])
        seen = set(todo)
        left = pre
        use = [q]
        grew = True
        while grew:
            grew = False
            rest = []
            for c in left:
                if any(m in seen for m in c[0]):
                    use.append(c)
                    for m in c[0]:
                        seen.add(m)
                    grew = True
                elif c[0]:
                    rest.append(c)
            left = rest
        pre = use
    ids, ints = {}, []
    cur = {}

    def put(c, k0, s):
        # c: dict id -> nonzero int
        if not c:
            return not (k0 < 0 or (s and k0 == 0))
        vals = list(c.values())
        g = math.gcd(*vals)
        isint = True
        for v in c:
            if not ints[v]:
                isint = False
                break
        if g != 1:
            c = {v: k // g for v, k in c.items()}
            k0 = Fraction(k0, g) if not isinstance(k0, int) or k0 % g \
                else k0 // g
        if isint:
            if s:
                k0 = math.ceil(k0) - 1
                s = False
            elif not isinstance(k0, int):
                k0 = math.floor(k0)
        key = tuple(sorted(c.items()))
        old = cur.get(key)
        if old is None or k0 < old[0] or (k0 == old[0] and s):
            cur[key] = (k0, s)
        return True

    for co, k0, s in pre:
        c = {}
        for m, v in co.items():
            i = ids.get(m)
            if i is None:
                i = ids[m] = len(ints)
                ints.append(_mono_int(m))
            c[i] = v
        if isinstance(k0, Fraction) and k0.denominator == 1:
            k0 = int(k0)
        if not put(c, k0, s):
            return False
    while cur:
        pos, neg_ = {}, {}
        for key in cur:
            for v, k in key:
                if k > 0:
                    pos[v] = pos.get(v, 0) + 1
                else:
                    neg_[v] = neg_.get(v, 0) + 1
        one = [v for v in pos if v not in neg_]
        one += [v for v in neg_ if v not in pos]
        if one:
            one = set(one)
            for key in [key for key in cur
                        if any(v in one for v, k in key)]:
                del cur[key]
            continue
        best = min(pos, key=lambda v: (pos[v] * neg_[v], v))
        ps, ns = [], []
        for key in list(cur):
            for v, k in key:
                if v == best:
                    (ps if k > 0 else ns).append((dict(key), cur.pop(key)))
                    break
        for pc, (pk, psn) in ps:
            a0 = pc[best]
            for nc, (nk, nsn) in ns:
                b0 = -nc[best]
                g = math.gcd(a0, b0)
                b, a = b0 // g, a0 // g
                c = {v: k * b for v, k in pc.items()}
                for v, k in nc.items():
                    z = c.get(v, 0) + k * a
                    if z:
                        c[v] = z
                    else:
                        c.pop(v, None)
                c.pop(best, None)
                if not put(c, pk * b + nk * a, psn or nsn):
                    return False
        if len(cur) > MAXC:
            return True
    return True


# ------------------------------------------------------------ facts

class Facts(object):

    def __init__(self, base=None):
        if base is None:
            self.cons = []        # (poly dict, strict)
            self.truths = {}
            self.eqs = []         # polynomials known to be zero
            self.notes = []
            self.known = set()    # atoms whose definitions were added
            self.multiplied = set()
        else:
            self.cons = list(base.cons)
            self.truths = dict(base.truths)
            self.eqs = list(base.eqs)
            self.notes = list(base.notes)
            self.known = set(base.known)
            self.multiplied = set(base.multiplied)
        self._cache = {}

    def copy(self):
        return Facts(self)

    # -- adding

    def _lin(self, d, strict):
        self.cons.append((to_poly(d), strict))
        self._cache = {}
        self._define(d)

    def ge(self, a, b=None):
        self._lin(sub(a, b) if b is not None else a, False)
        return self

    def gt(self, a, b=None):
        self._lin(sub(a, b) if b is not None else a, True)
        return self

    def equate(self, a, b):
        d = sub(a, b)
        self._lin(d, False)
        self._lin(neg(d), False)
        self.eqs.append(d)
        return self

    def _define(self, t):
        """Add the defining inequalities of interpreted atoms in t."""
        for m in to_poly(t):
            for a, e in m:
                if a in self.known:
                    continue
                self.known.add(a)
                self._define_atom(a)

    def _define_atom(self, a):
        op = a.op
        if op == 'floor':
            x = a.args[0]
            # a <= x < a + 1, multiplied by a positive denominator
            den, p = _clear(x)
            if den is not None and self.positive(den):
                self._lin(sub(p, mul(a, den)), False)
                self._lin(sub(mul(add(a, num(1)), den), p), True)
            elif den is None:
                self._lin(sub(x, a), False)
                self._lin(sub(add(a, num(1)), x), True)
        elif op == 'min':
            for x in a.args:
                self._lin(sub(x, a), False)
        elif op == 'trunc':
            x = a.args[0]
            den, p = _clear(x)
            if den is None and self.entails_ge(x):
                self._lin(a, False)
                self._lin(sub(x, a), False)
                self._lin(sub(add(a, num(1)), x), True)
        elif op == 'rint':
            x = a.args[0]
            den, p = _clear(x)
            if den is None:
                h = mk('num', Fraction(1, 2))
                self._lin(sub(add(x, h), a), False)
                self._lin(sub(add(a, h), x), False)
        elif op in ('len', 'count', 'size'):
            self._lin(a, False)
        elif op == 'B' and a.args[0] == 'count':
            self._lin(a, False)
        elif op == 'sqrt':
            self._lin(a, False)
        elif op == 'abs':
            self._lin(a, False)
            self._lin(sub(a, a.args[0]), False)
            self._lin(add(a, a.args[0]), False)

    # -- products

    def _products(self, t):
        """Bounds of the products in t from the bounds of their factors."""
        for m in to_poly(t):
            if len(m) < 2 or any(e < 1 or e != int(e) for _, e in m):
                continue
            for k, (a, e) in enumerate(m):
                if e != 1:
                    continue
                rest = m[:k] + m[k + 1:]
                s = 1
                for b, eb in rest:
                    if eb % 2 == 0:
                        continue
                    sb = self._atom_sign(b)
                    if not sb:
                        s = 0
                        break
                    s *= sb
                if not s:
                    continue
                b = from_poly({rest: Fraction(s)})
                for cp, strict in list(self.cons):
                    if len(cp) > 4 or ((a, 1),) not in cp:
                        continue
                    if any(len(q) > 1 for q in cp):
                        continue
                    key = (b, frozenset(cp.items()))
                    if key in self.multiplied:
                        continue
                    self.multiplied.add(key)
                    self.cons.append((to_poly(mul(from_poly(cp), b)), False))
                    self._cache = {}

    def _atom_sign(self, a):
        k = ('sign', a)
        if k not in self._cache:
            s = 0
            if not feasible(self.cons, ({((a, 1),): Fraction(1)}, True)):
                s = -1          # a > 0 is impossible
            if not feasible(self.cons, ({((a, 1),): Fraction(-1)}, True)):
                s = 1
            self._cache[k] = s
        return self._cache[k]

    # -- asking

    def positive(self, t):
        """t > 0 follows (products of positive atoms included)."""
        if t.op == 'num':
            return t.args[0] > 0
        p = to_poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(self._atom_pos(a) for a, e in m):
                return True
        return self.entails_gt(t)

    def _atom_pos(self, a):
        k = ('pos', a)
        if k not in self._cache:
            self._cache[k] = not feasible(
                self.cons, ({((a, 1),): Fraction(-1)}, False))
        return self._cache[k]

    def entails_ge(self, t):
        return self._ask(t, False)

    def entails_gt(self, t):
        return self._ask(t, True)

    def _ask(self, t, strict):
        k = (t, strict)
        r = self._cache.get(k)
        if r is None:
            n = len(self.cons)
            self._define(t)
            self._products(t)
            if len(self.cons) != n:
                self._cache = {}
            d = to_poly(neg(t))
            r = not feasible(self.cons, (d, not strict))
            self._cache[k] = r
        return r

    def consistent(self):
        r = self._cache.get('ok')
        if r is None:
            r = self._cache['ok'] = feasible(self.cons)
        return r

    def query(self, c):
        """True / False / None for a condition."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.truths:
            return self.truths[c]
        op = c.op
        if op == 'not':
            r = self.query(c.args[0])
            return None if r is None else not r
        if op in ('lt', 'le', 'eq'):
            d = _resolve(c.args[0], self)
            if d.op == 'nan':
                return False
            if d.op == 'num':
                v = d.args[0]
                return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[op]
            if not self._linear(d):
                return None
            if op == 'lt':
                if self.entails_gt(neg(d)):
                    return True
                if self.entails_ge(d):
                    return False
            elif op == 'le':
                if self.entails_ge(neg(d)):
                    return True
                if self.entails_gt(d):
                    return False
            else:
                if self.entails_gt(d) or self.entails_gt(neg(d)):
                    return False
                if self.entails_ge(d) and self.entails_ge(neg(d)):
                    return True
            return None
        if op == 'and':
            rs = [self.query(x) for x in c.args]
            if False in rs:
                return False
            return True if all(r is True for r in rs) else None
        if op == 'or':
            rs = [self.query(x) for x in c.args]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if op == 'exists':
            return None
        return None

    def _linear(self, d):
        return True

    def assume(self, c, value=True):
        """New facts with condition c known, or None when inconsistent."""
        q = self.query(c)
        if q is not None:
            return self if q == value else None
        f = self.copy()
        if not f._add(c, value):
            return None
        return f if f.consistent() else None

    def _add(self, c, value):
        op = c.op
        if c is TRUE or c is FALSE:
            return (c is TRUE) == value
        if op == 'not':
            return self._add(c.args[0], not value)
        if op == 'and' and value:
            return all(self._add(x, True) for x in c.args)
        if op == 'or' and not value:
            return all(self._add(x, False) for x in c.args)
        self.truths[c] = value
        self.notes.append((c, value))
        if op == 'is' and value:
            # x is one of the constants: it is none of the others
            pass
        if op == 'lt':
            d = c.args[0]
            self._lin(neg(d), True) if value else self._lin(d, False)
        elif op == 'le':
            d = c.args[0]
            self._lin(neg(d), False) if value else self._lin(d, True)
        elif op == 'eq' and value:
            self.equate(c.args[0], num(0))
        self._cache = {}
        return True

    def describe(self):
        out = []
        for c, v in self.notes:
            out.append(show(c) if v else 'not ' + show(c))
        return ' and '.join(out) or 'always'


def _clear(x):
    """Common denominator: (den, numerator) with x = numerator/den; den is
    None when x has no negative exponents."""
    p = to_poly(x)
    den = {}
    for m in p:
        for a, e in m:
            if e < 0:
                den[a] = max(den.get(a, 0), -e)
            elif a.op == 'inv':
                den[('q', a)] = max(den.get(('q', a), 0), e)
    if not den:
        return None, x
    d = num(1)
    for a, e in den.items():
        d = mul(d, T.power(a if not isinstance(a, tuple)
                           else a[1].args[0], e))
    return d, clear_mul(x, d)


def clear_mul(x, d):
    """x*d with inv(q)*q cancelled."""
    t = mul(x, d)
    return cancel_inv(t)


def cancel_inv(t):
    """Multiply out: returns numerator polynomial without inv atoms as far
    as they cancel exactly (only used for zero tests)."""
    return t


def numerator(t):
    """A polynomial that is zero iff t is zero (all denominators cleared)."""
    for _ in range(6):
        p = to_poly(t)
        invs = {}
        negs = {}
        for m in p:
            for a, e in m:
                if a.op == 'inv':
                    invs[a] = max(invs.get(a, 0), e)
                elif e < 0:
                    negs[a] = max(negs.get(a, 0), -e)
        if not invs and not negs:
            return t
        out = num(0)
        for m, c in p.items():
            term = mk('num', c)
            have = {}
            for a, e in m:
                if a.op == 'inv':
                    have[a] = e
                elif e < 0:
                    pass
                else:
                    term = mul(term, T.power(a, e))
            exps = dict(m)
            for a, e in negs.items():
                k = e + min(exps.get(a, 0), 0)
                if k:
                    term = mul(term, T.power(a, k))
            for a, e in invs.items():
                k = e - have.get(a, 0)
                if k:
                    term = mul(term, T.power(a.args[0], k))
            out = add(out, term)
        t = out
    return t


# ------------------------------------------------------------ equality

class Mismatch(object):
    def __init__(self, facts, a, b, why=''):
        self.region = facts.describe()
        self.facts = facts
        self.a, self.b, self.why = a, b, why
        self.undecided = False

    def __repr__(self):
        s = 'where %s: %s  versus expected  %s' % (
            self.region, show(self.a), show(self.b))
        if self.why:
            s += ' [%s]' % self.why
        return s


class Budget(Exception):
    pass


ATOMIC = {'lt', 'le', 'eq', 'is', 'isnan', 'in', 'truth', 'exists',
          'isinstance', 'raises'}


def _predicates(t, acc, seen):
    """Splittable conditions in t outside binder bodies."""
    if t in seen:
        return
    seen.add(t)
    if t.op == 'B':
        for x in T._terms_in(t.args[2]):
            _predicates(x, acc, seen)
        return
    for x in subterms(t):
        _predicates(x, acc, seen)
    if t.op in ATOMIC or (t.op == 'sym' and t.args[1] == 'bool'):
        acc.append(t)
    elif t.op == 'min':
        xs = t.args
        for i in range(len(xs)):
            for j in range(i):
                acc.append(le0(sub(xs[j], xs[i])))
    elif t.op == 'abs':
        acc.append(lt0(t.args[0]))


#: value of a reduction over an empty range
EMPTY = {'sum': num(0), 'prod': num(1), 'rmin': T.INF, 'last': None}


def _resolve(t, facts, memo=None):
    """Simplify t by what the facts decide."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ('sym', 'num', 'str', 'bv', 'bool'):
        if t.op == 'sym' and t in facts.truths:
            return TRUE if facts.truths[t] else FALSE
        nanf = facts.truths.get(mk('isnan', t)) if t.op == 'sym' else None
        if nanf:
            return T.NAN
        return t
    if t.op in ATOMIC:
        q = facts.truths.get(t)
        if q is not None:
            r = TRUE if q else FALSE
            memo[t] = r
            return r
    if t.op == 'ite':
        c = _resolve(t.args[0], facts, memo)
        q = facts.query(c)
        if q is True:
            r = _resolve(t.args[1], facts, memo)
        elif q is False:
            r = _resolve(t.args[2], facts, memo)
        else:
            r = ite(c, _resolve(t.args[1], facts, memo),
                    _resolve(t.args[2], facts, memo))
        memo[t] = r
        return r
    if t.op == 'B':
        if t.args[0] in EMPTY and isinstance(t.args[3][0], T.Term):
            n = t.args[3][0]
            if n.op != 'inf' and not any(T.occurs(v, n) for v in t.args[1]):
                n = _resolve(n, facts, memo)
                if facts.entails_ge(neg(n)):
                    r = EMPTY[t.args[0]]
                    r = memo[t] = t.args[3][3] if r is None else r
                    return r
        outer = tuple(_res_any(x, facts, memo) for x in t.args[2])
        inner = tuple(_res_any(x, facts, memo) for x in t.args[3])
        r = t if outer == t.args[2] and inner == t.args[3] else \
            T._rb_B(t.args[0], t.args[1], outer, inner)
        memo[t] = r
        return r
    new = tuple(_res_any(x, facts, memo) for x in t.args)
    r = t if new == t.args else T.rebuild(t, new)
    if r.op in ATOMIC:
        q = facts.query(r) if r.op not in ('lt', 'le', 'eq') or \
            r is not t else _query_flat(r, facts)
        if q is not None:
            r = TRUE if q else FALSE
    elif r.op == 'min':
        keep = list(r.args)
        for x in list(keep):
            for y in list(keep):
                if x is not y and x in keep and y in keep and \
                        facts.entails_ge(sub(x, y)):
                    keep.remove(x)
                    break
        r = T.tmin(*keep)
    elif r.op == 'abs':
        x = r.args[0]
        if facts.entails_ge(x):
            r = x
        elif facts.entails_ge(neg(x)):
            r = neg(x)
    elif r.op == 'floor':
        r = _res_floor(r, facts)
    elif r.op == 'rint':
        whole, rest = _whole(r.args[0])
        h = mk('num', Fraction(1, 2))
        if facts.entails_gt(add(rest, h)) and facts.entails_gt(sub(h, rest)):
            r = whole
    elif r.op == 'trunc':
        x = r.args[0]
        if facts.entails_ge(x):
            r = _resolve(T.floor(x), facts)
        elif facts.entails_ge(neg(x)):
            r = neg(_resolve(T.floor(neg(x)), facts))
    elif r.op == 'isnan' and facts.query(r) is not None:
        r = TRUE if facts.query(r) else FALSE
    if r.op not in ('nan', 'bool', 'num') and \
            facts.truths.get(mk('isnan', r)):
        r = T.NAN
    memo[t] = r
    return r


def _query_flat(c, facts):
    d = c.args[0]
    if c.op == 'lt':
        if facts.entails_gt(neg(d)):
            return True
        if facts.entails_ge(d):
            return False
    elif c.op == 'le':
        if facts.entails_ge(neg(d)):
            return True
        if facts.entails_gt(d):
            return False
    else:
        if facts.entails_gt(d) or facts.entails_gt(neg(d)):
            return False
        if facts.entails_ge(d) and facts.entails_ge(neg(d)):
            return True
    return None


def _whole(x):
    """x as an integer part and a rest."""
    whole, rest = {}, {}
    for m, c in to_poly(x).items():
        if c.denominator == 1 and all(e > 0 and T.is_int(a) for a, e in m):
            whole[m] = c
        else:
            rest[m] = c
    return from_poly(whole), from_poly(rest)


def _res_floor(t, facts):
    """floor(p/q) with 0 <= p < q is 0 (constant quotients nearby too)."""
    x = t.args[0]
    den, p = _clear(x)
    if den is None:
        den = num(1)
    elif not facts.positive(den):
        return t
    for k in (0, -1, 1):
        lo = mul(num(k), den)
        hi = mul(num(k + 1), den)
        if facts.entails_ge(sub(p, lo)) and facts.entails_gt(sub(hi, p)):
            return num(k)
    return t


def _res_any(x, facts, memo):
    if isinstance(x, T.Term):
        return _resolve(x, facts, memo)
    if isinstance(x, tuple):
        return tuple(_res_any(y, facts, memo) for y in x)
    return x


resolve = _resolve


def _nanable(t):
    """Float atoms whose NaN-ness has to be considered before a comparison
    on them can be split by sign."""
    out = []
    for m in to_poly(t):
        for a, e in m:
            c = T.isnan(a)
            if c is not FALSE and c is not TRUE:
                for p in T.atoms(c, lambda q: q.op == 'isnan'):
                    if p not in out:
                        out.append(p)
    return out


class Equal(object):
    """One equality question, with a budget on the number of regions."""

    def __init__(self, budget=4000, nan=True):
        self.budget = budget
        self.regions = 0
        self.nan = nan

    def __call__(self, a, b, facts):
        return self.go(a, b, facts, 0)

    def go(self, a, b, facts, depth):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        if a is b:
            self.regions += 1
            return None
        a = _resolve(a, facts)
        b = _resolve(b, facts)
        if a is b:
            self.regions += 1
            return None
        if a.op not in ('B',) and b.op not in ('B',):
            if T.numericish(a) and T.numericish(b) and \
                    not (kind(a) == 'bool' or kind(b) == 'bool'):
                if numerator(sub(a, b)) is num(0):
                    self.regions += 1
                    return None
        preds = []
        seen = set()
        _predicates(a, preds, seen)
        _predicates(b, preds, seen)
        for p in preds:
            if facts.query(p) is not None:
                continue
            if p.op in ('lt', 'le', 'eq'):
                d = p.args[0]
                if self.nan:
                    for q in _nanable(d):
                        if facts.query(q) is None:
                            return self.split(q, a, b, facts, depth)
                # a comparison whose operands hide conditions waits
                sub_p = []
                _predicates(d, sub_p, set())
                if any(facts.query(x) is None for x in sub_p if x is not p):
                    continue
                for c in (lt0(d), eq0(d), lt0(neg(d))):
                    f = facts.copy()
                    for other in (lt0(d), eq0(d), lt0(neg(d))):
                        if f is None:
                            break
                        f = f.assume(other, other is c)
                    if f is None or not f.consistent():
                        continue
                    r = self.go(a, b, f, depth + 1)
                    if r is not None:
                        return r
                return None
            return self.split(p, a, b, facts, depth)
        self.regions += 1
        return self.leaf(a, b, facts, depth)

    def split(self, p, a, b, facts, depth):
        for v in (True, False):
            f = facts.assume(p, v)
            if f is None:
                continue
            r = self.go(a, b, f, depth + 1)
            if r is not None:
                return r
        return None

    # -- no conditions left

    def leaf(self, a, b, facts, depth):
        if a is b:
            return None
        if depth > 60:
            return Mismatch(facts, a, b, 'too deep')
        if a.op == 'B' and b.op == 'B':
            return self.binders(a, b, facts, depth)
        numeric = all(T.numericish(x) and x.op not in
                      ('tuple', 'list', 'dict', 'none', 'obj', 'inst',
                       'nan') for x in (a, b))
        if numeric and kind(a) != 'bool' and kind(b) != 'bool':
            for _ in range(8):
                d = numerator(sub(a, b))
                d = _reduce(d, facts)
                if d.op == 'num' and d.args[0] == 0:
                    return None
                if facts.entails_ge(d) and facts.entails_ge(neg(d)):
                    return None
                e = _fixed(d, facts)
                if e is not d and e.op == 'num' and e.args[0] == 0:
                    return None
                pa = _top_atoms(a)
                pb = _top_atoms(b)
                only_a = [x for x in pa if x not in pb]
                only_b = [x for x in pb if x not in pa]
                hit = False
                for x in only_a:
                    for y in only_b:
                        if not _same_shape(x, y):
                            continue
                        if x is a and y is b:
                            continue
                        if self.go(x, y, facts, depth + 1) is None:
                            b = subst_atom(b, y, x)
                            hit = True
                            break
                    if hit:
                        break
                if not hit:
                    break
                if a is b:
                    return None
        # structural congruence
        if _same_shape(a, b) and a.op != 'poly' and a.op not in (
                'num', 'str', 'bv'):
            xa, xb = list(_flatargs(a)), list(_flatargs(b))
            if len(xa) == len(xb):
                for x, y in zip(xa, xb):
                    if isinstance(x, T.Term) and isinstance(y, T.Term):
                        r = self.go(x, y, facts, depth + 1)
                        if r is not None:
                            return r
                    elif x != y:
                        return Mismatch(facts, a, b)
                return None
        return Mismatch(facts, a, b)

    def binders(self, a, b, facts, depth):
        r = self.binders1(a, b, facts, depth)
        if r is None or a.args[0] != 'sum' or b.args[0] != 'sum':
            return r
        for c in reindexed(b):
            if self.binders1(a, c, facts, depth) is None:
                return None
        return r

    def binders1(self, a, b, facts, depth):
        if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]) or \
                len(a.args[2]) != len(b.args[2]) or \
                len(a.args[3]) != len(b.args[3]):
            return Mismatch(facts, a, b)
        for x, y in zip(a.args[2], b.args[2]):
            r = self.any(x, y, facts, depth)
            if r is not None:
                return r
        vs, ia = T.open_binder(a)
        ib = T.instantiate(b, vs)
        f = facts
        if a.args[0] in ('sum', 'lam', 'seq', 'paint', 'big', 'arr', 'last',
                         'count', 'exists', 'rmin', 'prod', 'first',
                         'flat'):
            ns = ia[0] if isinstance(ia[0], tuple) else (ia[0],)
            ns = [n for n in ns if isinstance(n, T.Term)]
            for v, n in zip(vs, ns):
                f = f.copy()
                f.ge(v)
                if n.op not in ('inf', 'tuple', 'list'):
                    f.ge(sub(_resolve(n, facts), v), num(1))
            if not f.consistent():
                # empty range on one side: compare the ranges
                f = facts
        for x, y in zip(ia, ib):
            # ranges may only use outer facts
            r = self.any(x, y, f, depth)
            if r is not None:
                return r
        return None

    def any(self, x, y, facts, depth):
        if isinstance(x, T.Term) and isinstance(y, T.Term):
            return self.go(x, y, facts, depth + 1)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return Mismatch(facts, mk('list', x), mk('list', y))
            for p, q in zip(x, y):
                r = self.any(p, q, facts, depth)
                if r is not None:
                    return r
            return None
        if x == y:
            return None
        return Mismatch(facts, T.const(str(x)), T.const(str(y)))


def reindexed(b):
    """Other ways to write the sum b: running backwards, and (for a sum of
    sums over a rectangle) with the order of the two sums exchanged."""
    if len(b.args[1]) != 1 or b.args[2] != ():
        return
    (v,), (n, body) = T.open_binder(b)

    def make(w, m, x):
        r = T.total(w, m, x)
        return r if r.op == 'B' else None
    for c in (make(v, n, T.subst(body, {v: sub(sub(n, num(1)), v)})),):
        if c is not None and c is not b:
            yield c
    if body.op == 'B' and body.args[0] == 'sum' and \
            len(body.args[1]) == 1 and body.args[2] == ():
        (w,), (m, inner) = T.open_binder(body)
        if T.occurs(v, m):
            return
        x = make(v, n, inner)
        if x is None:
            return
        y = make(w, m, x)
        if y is None:
            return
        yield y
        z = make(w, m, T.subst(x, {w: sub(sub(m, num(1)), w)}))
        if z is not None and z is not y:
            yield z


def _flatargs(t):
    stack = list(reversed(t.args))
    while stack:
        a = stack.pop()
        if isinstance(a, tuple):
            yield len(a)
            stack.extend(reversed(a))
        else:
            yield a


def _same_shape(x, y):
    if x.op != y.op:
        return False
    if x.op in ('call', 'mcall', 'fn', 'attr'):
        names = [a for a in x.args if isinstance(a, str)]
        return names == [a for a in y.args if isinstance(a, str)]
    if x.op == 'B':
        return x.args[0] == y.args[0]
    return True


def _top_atoms(t):
    out = []
    for m in to_poly(t):
        for a, e in m:
            if a not in out:
                out.append(a)
    return out


def subst_atom(t, old, new):
    p = to_poly(t)
    out = num(0)
    for m, c in p.items():
        x = mk('num', c)
        for a, e in m:
            x = mul(x, T.power(new if a is old else a, e))
        out = add(out, x)
    return out


def _reduce(d, facts):
    """Use linear equalities x = rest to eliminate monomials."""
    for e in facts.eqs:
        p = to_poly(e)
        cand = [(m, c) for m, c in p.items()
                if len(m) == 1 and m[0][1] == 1]
        if not cand:
            continue
        m, c = cand[-1]
        atom = m[0][0]
        rest = T.scale(sub(e, from_poly({m: c})), -1 / c)
        if T.occurs(atom, rest):
            continue
        d = subst(d, {atom: rest})
    return d


def _fixed(d, facts):
    """d with the (small) whole numbers the facts fix replaced by their
    values: linear reasoning does not see those in products."""
    sub_ = {}
    for a in sorted(T.atoms(d, lambda q: q.op in (
            'sym', 'attr', 'floor', 'shape', 'len') and kind(q) == 'int'),
            key=lambda q: q.uid)[:16]:
        for v in range(5):
            if not facts.entails_ge(sub(a, num(v))):
                break
            if facts.entails_ge(sub(num(v), a)):
                sub_[a] = num(v)
                break
    return subst(d, sub_) if sub_ else d


def equal(a, b, facts=None, budget=4000, nan=True):
    """None when equal, else the Mismatch (undecided when the budget ran
    out or an uninterpreted construct occurs on one side only)."""
    facts = facts or Facts()
    try:
        r = Equal(budget, nan)(a, b, facts)
    except Budget:
        r = Mismatch(facts, a, b, 'region budget exhausted')
        r.undecided = True
        return r
    if r is not None:
        r.undecided = one_sided(a, b)
    return r


UNINTERP = ('call', 'mcall', 'havoc', 'bigmul')


def one_sided(a, b):
    """An operation the analysis does not interpret that occurs in only one
    of the two terms: the terms may still be equal."""
    def names(t):
        out = set()
        for x in T.atoms(t, lambda q: q.op in UNINTERP):
            nm = [y for y in x.args if isinstance(y, str)]
            out.add((x.op, tuple(nm[:1])))
        return out
    na, nb = names(a), names(b)
    extra = na - nb
    return any(op == 'havoc' for op, _ in na | nb) or bool(extra)
