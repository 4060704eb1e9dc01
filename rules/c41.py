"""Hills of a line: every crest is paired with the valley it rises from.

`multiplier_calc` is summarised for every pattern of rises, falls and level
steps of a line up to LENGTH cells; how much the line rises or falls is
unknown.  The formula (`mh_calc`) is replaced by a stand-in that records the
crest, the valley and the line it is given.
"""
import itertools
from wmcheck import terms as T
from wmcheck.library import short, small
from wmcheck.models import IX
from wmcheck.terms import mk, num, add, sub
from wmcheck.values import Tup
from .common import sym

LEVEL = 'other'
MC = 'topographic.multiplier_calc'
LENGTH = 7


def line(pattern):
    """Elevations of a pattern of steps and what they are rounded down."""
    y = T.mul(num(2), sym('start', 'int'))
    ys = [y]
    for k, d in enumerate(pattern):
        step = add(num(1), sym('step%d' % k, 'int', nn=True))
        y = add(y, step) if d > 0 else sub(y, step) if d < 0 else y
        ys.append(y)
    parts = [T.num(T.Fraction(p, 4)) for p in (3, 1, 0, 3)]
    return [add(y, parts[k % 4]) for k, y in enumerate(ys)], ys


class Hills(object):
    """What multiplier_calc does with a pattern of steps."""

    def __init__(self, c, S, pattern):
        self.xs, self.ys = line(pattern)
        self.n = n = num(len(self.xs))
        f = S.func(MC, 'multiplier_calc')
        self.where = S.where(f)
        h = S.func('topographic.mh', 'mh_calc')
        names = [a.arg for a in h.node.args.args]
        self.seen = []

        def hook(args, kwargs, st, node):
            b = S.ip.bind_args(h, args, kwargs, st, node)
            self.seen.append((small(S.M, b[names[0]], st),
                              [S.ip.term(b[x], st) for x in names[1:4]]))
            t = mk('at', T.sym('hill%d' % len(self.seen)), IX[0])
            return S.M.newarr(st, t, (n, num(1)), 'float')
        S.M.overrides['topographic.mh.mh_calc'] = hook
        self.run = S.call(f, [lambda st: short(S.M, self.xs, st, 'float'),
                              sym('spacing')])
        self.values = small(S.M, self.run.value, self.run.st)
        b = S.call(S.spec('lines', 'crests'), [Tup(self.ys)])
        self.want = [tuple(x.args) for x in S.term(b).args]


def same(xs, ys):
    """True, False, or None when it is not known."""
    if xs is None:
        return None
    if len(xs) != len(ys):
        return False
    if all(x is y for x, y in zip(xs, ys)):
        return True
    if all(T.is_const(x) and T.is_const(y) for x, y in zip(xs, ys)):
        return False
    return None


def name(pattern):
    return 'of a line with steps %s' % (' '.join(
        {1: 'up', 0: 'level', -1: 'down'}[d] for d in pattern) or 'none')


def pattern(c, S, steps):
    w = Hills(c, S, steps)
    what = name(steps)
    got = [tuple(x[1][:2]) for x in w.seen]
    vague = S.ip.notes or not all(T.is_const(t) for g in got for t in g)
    ok = sorted(g[0].args[0] for g in got) == sorted(
        g[0].args[0] for g in w.want) if not vague else None
    text = 'crest and valley %s, not %s' % tuple(
        ', '.join('%s/%s' % tuple(T.show(t, 2) for t in g) for g in x) or
        'none' for x in (got, w.want))
    if ok is not None:
        ok = set(got) == set(w.want)
    c.judge('hills ' + what, ok, w.where, text)
    if not ok:
        return
    for prof, rest in w.seen:
        r = same(prof, w.ys)
        if r is None and prof is not None:
            c.equal('line rounded down ' + what, w.where, mk('tuple', *prof),
                    mk('tuple', *w.ys), S.base_facts())
        else:
            c.judge('line rounded down ' + what, r, w.where,
                    'the hill is worked out from another line')
        if r is not True:
            break
    for g in [x[1][2] for x in w.seen if x[1][2] is not sym('spacing')][:1]:
        c.equal('spacing ' + what, w.where, g, sym('spacing'),
                S.base_facts())
        break
    else:
        c.judge('spacing ' + what, True, w.where, '')
    # each cell: the largest of its hills, 1 without
    want = []
    for k in range(len(w.xs)):
        want.append(T.tmax(num(1), *[
            mk('at', T.sym('hill%d' % (i + 1)), num(k))
            for i in range(len(w.seen))]))
    if w.values is None:
        c.undecided('largest of the hills ' + what, w.where, 'not followed')
        return
    c.equal('largest of the hills ' + what, w.where,
            mk('tuple', *w.values), mk('tuple', *want), S.base_facts())


def check(c):
    c.minimum = 100
    S = c.session('lines')
    c.saw(MC + '.multiplier_calc')
    c.saw('topographic.findpeaks.findpeaks')
    c.saw('topographic.findpeaks.findvalleys')
    longest = LENGTH + (2 if c.tier == "thorough" else 0)
    for n in range(1, longest + 1):
        for steps in itertools.product((1, 0, -1), repeat=n - 1):
            c.attempt('hills ' + name(steps), MC,
                      lambda: pattern(c, S, steps), 60)
