"""Satisfiability of path conditions: atoms are split one by one, and a
branch whose arithmetic facts contradict each other is dropped."""
from . import terms as T
from . import logic


def pick(t):
    while True:
        if t.op in ('and', 'or', 'not', 'ite'):
            t = t.args[0]
        else:
            return t


def assign(t, a, v, memo=None):
    memo = {} if memo is None else memo
    if t is a:
        return T.TRUE if v else T.FALSE
    if t in memo:
        return memo[t]
    if t.op == 'not':
        r = T.tnot(assign(t.args[0], a, v, memo))
    elif t.op == 'and':
        r = T.tand(*[assign(x, a, v, memo) for x in t.args])
    elif t.op == 'or':
        r = T.tor(*[assign(x, a, v, memo) for x in t.args])
    elif t.op == 'ite':
        r = T.ite(*[assign(x, a, v, memo) for x in t.args])
    else:
        r = t
    memo[t] = r
    return r


class Budget(Exception):
    pass


def satisfy(t, facts=None, budget=3000):
    """Assignment [(atom, value)] that makes t true, or None."""
    left = [budget]

    def go(t, f, lits):
        left[0] -= 1
        if left[0] < 0:
            raise Budget()
        if t is T.FALSE:
            return None
        if t is T.TRUE:
            return lits
        a = pick(t)
        for v in (True, False):
            f2 = f.assume(a, v)
            if f2 is None:
                continue
            r = go(assign(t, a, v), f2, lits + [(a, v)])
            if r is not None:
                return r
        return None
    return go(t, facts if facts is not None else logic.Facts(), [])


def show(lits, width=6):
    return ' and '.join(('' if v else 'not ') + T.show(a, width)
                        for a, v in lits) or 'always'
