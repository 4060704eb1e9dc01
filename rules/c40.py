"""Distances and directions follow Vincenty's formulae.

The iteration of both formulae is summarised by what it starts from, what one
pass makes of any value, and when there is another pass; the results are those
after one more pass from any value.  All of it is compared with
`specs/vincenty.py`.  Arguments of the inverse sine must stay within -1 .. 1
whatever the rounding (rounding is out of scope otherwise).
"""
from wmcheck import terms as T
from wmcheck.harness import Anchor
from wmcheck.values import Cls, Tup
from wmcheck.terms import mk, num, neg, add, sub, mul, div
from .common import sym

LEVEL = 'proof'
MOD = 'utilities.vincenty'
PARTS = {'vinc_dist': ('distance', 'forward azimuth', 'reverse azimuth'),
         'vinc_pt': ('latitude', 'longitude', 'reverse azimuth')}
INF = float('inf')


def bound(t, sign, memo=None):
    """Upper bound of sign * t that rounding cannot exceed (a float), from
    clamps, sines and constants only; INF when there is none."""
    if t.op == 'num':
        return float(t.args[0]) * sign
    if t.op in ('min', 'max'):
        bs = [bound(x, sign) for x in t.args]
        return min(bs) if (t.op == 'min') == (sign > 0) else max(bs)
    if t.op == 'fn' and t.args[0] in ('sin', 'cos'):
        return 1.0
    if t.op == 'ite':
        return max(bound(x, sign) for x in t.args[1:])
    m = neg(t)
    if m.op in ('num', 'min', 'max', 'ite', 'fn'):
        return bound(m, -sign)
    return INF


def clamps(t):
    return bool(T.atoms(t, lambda q: q.op in ('min', 'max', 'ite', 'clip')))


def live(loop, outs):
    """Values carried from one pass to the next that matter."""
    pre = {v: k for k, v in loop['pre'].items()}
    need, todo = set(), list(outs) + [loop['again']]
    while todo:
        for s in T.atoms(todo.pop(), lambda q: q in pre):
            if pre[s] not in need:
                need.add(pre[s])
                todo.append(loop['step'][pre[s]])
    return sorted(need)


def formula(c, name, spec, names, assume):
    S = c.session('vincenty')
    f = S.func(MOD, name)
    where = S.where(f)
    c.saw(where)
    args = [sym(n, 'float') for n in names]
    assume(S, *args)
    S.M.iterations = []
    b = S.call(S.spec('vincenty', spec), args)
    ref = S.M.iterations
    S.M.iterations = []
    a = S.call(f, args)
    got = S.M.iterations
    S.M.iterations = None
    tb, ta = S.term(b), S.term(a)
    if len(ref) != 1 or len(got) != 1 or tb.op != 'tuple' or \
            ta.op != 'tuple' or len(ta.args) != len(tb.args):
        c.undecided(name, where, 'not one iteration: %s'
                    % (S.ip.notes[:2] or len(got)))
        return
    ref, got = ref[0], got[0]
    at = '%s in %s' % (where.split(':')[0] + ':%d' % got['line'], name)
    mine, theirs = live(got, ta.args), live(ref, tb.args)
    if len(mine) != 1 or len(theirs) != 1:
        c.undecided(name, at, 'values carried on: %s' % mine)
        return
    k, k2 = mine[0], theirs[0]
    v = sym('estimate', 'float')
    S.assume(lambda fs: (fs.ge(v, num(-100)), fs.ge(num(100), v)))
    mine_for = {got['pre'][k]: v}
    ref_for = {ref['pre'][k2]: v}
    fs = S.base_facts()
    for lab, x in got['pre'].items():
        if x is not got['pre'][k]:
            mine_for[x] = sym('other_' + lab, 'float')

    def mine_(t):
        return T.subst(t, mine_for)

    def ref_(t):
        return T.subst(t, ref_for)
    c.equal('%s: first estimate' % name, at, got['init'][k],
            ref['init'][k2], fs)
    # once at least, for any first estimate
    first, fp = got['first'], S.base_facts()
    if first is not T.TRUE:
        first = got['entry'](entering(got['init'], k, v))
        if spec == 'direct':
            fp.gt(v, num(0))
            fp.gt(div(num(1), v), num(0))
    c.equal('%s: at least one pass' % name, at, first, T.TRUE, fp)
    c.equal('%s: a pass' % name, at, mine_(got['step'][k]),
            ref_(ref['step'][k2]), fs)
    c.equal('%s: another pass' % name, at, mine_(got['again']),
            ref_(ref['again']), fs)
    for lab, x, y in zip(PARTS[name], ta.args, tb.args):
        c.equal('%s: %s' % (name, lab), where, mine_(x), ref_(y), fs)
    seen = set()
    for t in list(ta.args) + [got['step'][k]]:
        for q in T.atoms(t, lambda q: q.op == 'fn' and
                         q.args[0] in ('arcsin', 'arccos')):
            seen.add(q)
    for q in seen:
        x = q.args[-1]
        good = bound(x, 1) <= 1 and bound(x, -1) <= 1
        c.judge('%s: domain of %s' % (name, q.args[0]),
                True if good else None if clamps(x) else False, at,
                'its argument can exceed one by rounding, which ends in a '
                'math domain error', 'the argument is cut to -1 .. 1')


def entering(init, k, v):
    """The first values of all variables in terms of v, that of k, as far as
    they are multiples of it plus a number."""
    out = {k: v}
    for name, t in init.items():
        if name == k:
            continue
        for p in (1, 2, -1, -2, 3):
            rest = sub(t, mul(num(p), init[k]))
            if rest.op == 'num':
                out[name] = add(mul(num(p), v), rest)
    return out


ATTRS = ('f', 'a', 'lat1', 'lon1', 'lat2', 'lon2', 'distance', 'azimuth12',
         'azimuth21', 'gcarclen', 'antipodal')


def opaque(S):
    """Both formulae as named functions."""
    def hook(name, f):
        names = [a.arg for a in f.node.args.args]

        def call(args, kwargs, st, node):
            b = S.ip.bind_args(f, args, kwargs, st, node)
            t = mk('call', name, *[S.ip.term(b[n], st) for n in names])
            return Tup([mk('fn', 'real', mk('item', t, num(k)))
                        for k in range(3)])
        return call
    for name, spec in (('vinc_dist', 'inverse'), ('vinc_pt', 'direct')):
        h = hook('repo:' + name, S.func(MOD, name))
        S.M.overrides[MOD + '.' + name] = h
        g = S.spec('vincenty', spec)
        S.M.overrides[g.module + '.' + spec] = hook('repo:' + name, g)


def pick(t, facts):
    """The value under the facts."""
    while t.op == 'ite':
        q = facts.query(t.args[0])
        if q is None:
            break
        t = t.args[1] if q else t.args[2]
    return t


def line(c, n, round_=False):
    """GreatCircle: its attributes (n None) or n points along it."""
    S = c.session('vincenty')
    opaque(S)
    mod = S.module(MOD)
    K = S.ip.base.heap[mod.frame].vars.get('GreatCircle')
    if not isinstance(K, Cls):
        raise Anchor('class GreatCircle is not in the tree')
    ends = [sym(x, 'float') for x in ('lon1', 'lat1', 'lon2', 'lat2')]
    a, flat = sym('rmajor', 'float'), sym('flattening', 'float')
    S.assume(lambda fs: (fs.gt(a, num(0)), fs.gt(flat, num(0)),
                         fs.gt(num(1), flat)))
    axes = [a, a] if round_ else [a, mul(a, sub(num(1), flat))]
    made = S.call(K, axes + ends)
    if n is None:
        where = S.where(S.func(MOD, 'GreatCircle.__init__'))
        c.saw(where)
        want = S.call(S.spec('vincenty', 'start'), axes + ends)
        attrs = made.st.heap[made.value.loc].attrs
        for k, x in zip(ATTRS, S.term(want).args):
            if k not in attrs:
                c.undecided('great circle: ' + k, where, 'no such attribute')
                continue
            c.equal('great circle: ' + k, where,
                    S.ip.term(attrs[k], made.st), x, S.base_facts())
        return
    f = S.func(MOD, 'GreatCircle.points')
    where = S.where(f)
    c.saw(where)
    got = S.call(f, [made.value, num(n)], st=made.st.copy())
    if round_ and n > 2:
        want = S.call(S.spec('vincenty', 'sphere'), [num(n), a] + ends)
    else:
        want = S.call(S.spec('vincenty', 'along'), [num(n)] + axes + ends)
    inst = '%d points %s' % (n, 'on a sphere' if round_ else '')
    ta, tb = pick(S.term(got), S.base_facts()), S.term(want)
    if ta.op != 'tuple' or len(ta.args) != 2:
        c.undecided(inst, where, 'not two lists: %s' % T.show(ta, 3)[:80])
        return
    for lab, x, y in zip(('longitudes', 'latitudes'), ta.args, tb.args):
        x = pick(x, S.base_facts())
        if x.op != 'list':
            c.undecided(inst + ': ' + lab, where, 'not a list: %s'
                        % T.show(x, 4)[:200])
            continue
        c.judge('%s: number of %s' % (inst, lab),
                len(x.args) == len(y.args), where,
                '%d of them' % len(x.args), '%d' % len(y.args))
        for k, (p, q) in enumerate(zip(x.args, y.args)):
            c.equal('%s: %s %d' % (inst, lab, k), where, p, q,
                    S.base_facts())


def check(c):
    c.minimum = 8
    c.assume('0 < flattening < 1/2, radius > 0, latitudes strictly between '
             'the poles, longitudes within two turns, distances > 0')

    def both(S, f, a, *rest):
        S.assume(lambda fs: (fs.gt(f, num(0)), fs.gt(num(0.5), f),
                             fs.gt(a, num(0))))

    def inverse(S, f, a, p1, l1, p2, l2):
        both(S, f, a)
        S.assume(lambda fs: [
            (fs.ge(x, num(-w)), fs.ge(num(w), x))
            for x, w in ((p1, 1.5), (p2, 1.5), (l1, 6.3), (l2, 6.3))])

    def direct(S, f, a, p1, l1, az, s):
        both(S, f, a)
        S.assume(lambda fs: [(fs.ge(x, num(-w)), fs.ge(num(w), x))
                             for x, w in ((p1, 1.5), (l1, 6.3), (az, 6.3))])
        S.assume(lambda fs: fs.gt(s, num(0)))
    c.attempt('vinc_dist', 'vinc_dist', lambda: formula(
        c, 'vinc_dist', 'inverse', ('f', 'a', 'p1', 'l1', 'p2', 'l2'),
        inverse))
    c.attempt('vinc_pt', 'vinc_pt', lambda: formula(
        c, 'vinc_pt', 'direct', ('f', 'a', 'p1', 'l1', 'az', 's'), direct))
    c.attempt('great circle', 'GreatCircle', lambda: line(c, None))
    for n in (2, 3, 4):
        c.attempt('%d points' % n, 'GreatCircle.points',
                  lambda: line(c, n))
        c.attempt('%d points on a sphere' % n, 'GreatCircle.points',
                  lambda: line(c, n, True))
