"""Hill-shape multiplier of one line (AS/NZS 1170.2): escarpment factor,
formula, zone of influence, bound of 1.71 and the largest over all hills.

`escarpment_factor`, `mh_calc` and `multiplier_calc` are compared with
`specs/hill.py` for every profile, ridge, valley and spacing.
"""
from wmcheck import terms as T
from wmcheck.terms import mk, num

LEVEL = 'proof'


def hills(c):
    S = c.session('hill')
    r, v, sp = T.sym('ridge', 'int'), T.sym('valley', 'int'), T.sym('spacing')
    N = T.sym('n', 'int')
    S.assume(lambda f: (f.ge(r), f.ge(v), f.gt(N, r), f.gt(N, v), f.gt(sp)))
    args = [S.vector('p', N, nonan=True), r, v, sp]
    c.compare(S, 'escarpment factor', ('topographic.mh', 'escarpment_factor'),
              ('hill', 'steepness'), args)
    S.opaque('topographic.mh', 'escarpment_factor', result='num')
    f = S.func('topographic.mh', 'mh_calc')
    c.saw(S.where(f))

    def go():
        a = S.call(f, args)
        b = S.call(S.spec('hill', 'multiplier'), args + [T.sym('f')])
        tb = S.term(b)
        evs = a.events('repo:escarpment_factor')
        if len(evs) == 1:
            want = [S.ip.term(x(b.st) if callable(x) else x, b.st)
                    for x in args]
            c.equal('escarpment factor is asked for this hill', S.at(evs[0]),
                    mk('tuple', *evs[0].terms), mk('tuple', *want),
                    S.base_facts())
            tb = T.subst(tb, {T.sym('f'): S.ip.term(evs[0].result, a.st)})
        c.equal('hill-shape formula', S.where(f), S.term(a), tb,
                S.base_facts())
    c.attempt('hill-shape formula', S.where(f), go, 300)


def lines(c):
    S = c.session('hill')
    N = T.sym('n', 'int')
    S.assume(lambda f: (f.ge(N, num(1)),))
    for k, nm in enumerate(['findpeaks', 'findvalleys']):
        S.opaque('topographic.findpeaks', nm, result='array',
                 shape=lambda b, st, k=k: (
                     mk('fn', 'count%d' % k, S.ip.term(b['y'], st)),))
    S.opaque('topographic.mh', 'mh_calc', result='array',
             shape=lambda b, st: (N, num(1)))
    c.compare(S, 'largest of all hills of a line',
              ('topographic.multiplier_calc', 'multiplier_calc'),
              ('hill', 'line'), [S.vector('p', N), T.sym('spacing')],
              nan=False)


def check(c):
    c.minimum = 3
    c.assume('0 <= ridge, valley < n; spacing > 0; the profile has no '
             'missing values (topomult replaces them by 0)')
    hills(c)
    lines(c)
