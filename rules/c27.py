"""A NetCDF file has what was asked for and is closed.

`nc_save_grid` is summarised for tables of dimensions and variables whose
keys are given and whose names, values, types and attributes are unknown.
The calls on the data set are read off the summary: what is created and
filled under which condition; what every way out leaves open.
"""
from wmcheck import terms as T, boolean
from wmcheck.terms import num, mk, NONE
from wmcheck.values import DictObj, Tup, Ref
from .common import NC, sym
from .effects import strip

LEVEL = 'proof'
DIMKEYS = ('name', 'values', 'dtype', 'atts')
VARKEYS = ('name', 'values', 'dtype', 'dims', 'atts')
CREATED = {'.createVariable': ('varname', 'datatype', 'dimensions'),
           '.createDimension': ('dimname', 'size')}


def table(S, st, d):
    return S.ip.alloc(st, DictObj({
        (k if isinstance(k, T.Term) else T.string(k)): v
        for k, v in d.items()}))


class Run(object):
    """One call of the writer."""

    def __init__(self, c, nd=2, nv=2, drop=None, ranks=None, none=(),
                 gatts=True, empty=(), opts=()):
        S = self.S = c.session()
        self.c = c
        self.f = S.func(NC, 'nc_save_grid')
        self.where = S.where(self.f)
        c.saw(self.where)
        st = S.state()
        self.dims, self.vars = {}, {}
        self.atts = {}
        for i in range(nd):
            a = self.some_atts(st, 'd%d' % i, 'd%d' % i in empty)
            row = dict(name=sym('dname%d' % i, 'str'),
                       values=S.vector('dvalues%d' % i),
                       dtype=sym('dtype%d' % i, 'str'), atts=a)
            self.dims[i] = row
        for i in range(nv):
            a = self.some_atts(st, 'v%d' % i, 'v%d' % i in empty)
            k = 2 if ranks is None else ranks[i]
            row = dict(name=sym('vname%d' % i, 'str'),
                       values=NONE if i in none else S.array('vals%d' % i),
                       dims=Tup([sym('vdim%d_%d' % (i, j), 'str')
                                 for j in range(k)]),
                       dtype=sym('vtype%d' % i, 'str'), atts=a)
            self.vars[i] = row
        self.gatts = self.some_atts(st, 'g', False) if gatts else NONE
        mine = []
        for rows, tag in ((self.dims, 'dim'), (self.vars, 'var')):
            d = {}
            for i, row in rows.items():
                got = {k: (v(st) if callable(v) and not isinstance(
                    v, (T.Term, Tup, Ref)) else v) for k, v in row.items()}
                row.update(got)
                if drop and drop[0] == tag and drop[1] == i:
                    del got[drop[2]]
                d[num(i)] = table(S, st, got)
            mine.append(table(S, st, d))
        self.title = sym('title', 'str')
        self.write, self.keep = sym('writedata', 'bool'), sym(
            'keepfileopen', 'bool')
        self.nodata = sym('nodata')
        self.path = sym('filename', 'str')
        self.start = st.copy()
        self.run = S.call(self.f, [self.path] + mine, dict(
            nodata=self.nodata, datatitle=self.title, gatts=self.gatts,
            writedata=self.write, keepfileopen=self.keep), st=st)
        self.trace = self.run.trace
        self.ds = [e for e in self.trace if e.name == 'netCDF4.Dataset']
        self.facts = S.base_facts()

    def some_atts(self, st, tag, empty):
        rows = {} if empty else {'%s_a%d' % (tag, j): sym(
            '%s_att%d' % (tag, j), 'any') for j in range(2)}
        self.atts[tag] = rows
        return table(self.S, st, rows)

    # ------------------------------------------------------------- facts
    def tm(self, v):
        if isinstance(v, (T.Term,)):
            return v
        return self.S.ip.term(v, self.run.st)

    def args(self, e):
        """Positional arguments without the object, keywords."""
        kw = {}
        for k, v in (e.kwargs or {}).items():
            kw[k if isinstance(k, str) else k.args[0]] = self.tm(v)
        return [self.tm(a) for a in e.args], kw

    def named(self, e):
        pos, kw = self.args(e)
        for k, v in zip(CREATED[e.name], pos):
            kw.setdefault(k, v)
        for k, v in zip(CREATED[e.name], pos):
            kw[k] = v
        return kw

    def status(self, cond):
        try:
            r = boolean.satisfy(cond, self.facts)
        except boolean.Budget:
            return None, 'too many conditions'
        if r is None:
            return True, ''
        vague = T.atoms(cond, lambda q: q.op in ('havoc', 'undef'))
        return (None if vague or self.S.ip.notes else False), \
            boolean.show(r, 6)

    def pc(self, e):
        return T.tand(*e.pc)

    def recv(self, e):
        r = e.recv
        if r is None and e.name == '$setattr':
            r = e.args[0]
        if r is None:
            return None
        return r if isinstance(r, T.Term) else self.tm(r)

    def of(self, e, obj):
        """Is e a call on obj (possibly one of several alternatives)?"""
        r = self.recv(e)
        return r is obj

    def created(self, kind, name):
        return [e for e in self.trace if e.name == kind and
                self.named(e).get(CREATED[kind][0]) is name and
                self.of(e, self.ds[0].result)]

    def attributes(self, obj):
        """name -> list of (value, condition)"""
        out = {}
        for e in self.trace:
            if e.name in ('.setncatts', '.setncattr', '$setattr',
                          '.setncattr_string', '$setitem') and \
                    self.of(e, obj):
                pos, kw = self.args(e)
                if e.name == '.setncatts':
                    d = e.args[0] if e.args else list(
                        e.kwargs.values())[0]
                    for k, v in self.entries(d):
                        out.setdefault(k, []).append((v, self.pc(e)))
                elif e.name in ('.setncattr', '.setncattr_string'):
                    out.setdefault(pos[0], []).append((pos[1], self.pc(e)))
                elif e.name == '$setattr' and len(pos) > 1:
                    out.setdefault(pos[-2], []).append(
                        (pos[-1], self.pc(e)))
        return out

    def entries(self, d):
        if isinstance(d, Ref):
            o = self.run.st.heap.get(d)
            if isinstance(o, DictObj):
                return [(k, self.tm(v)) for k, v in o.items.items()]
        t = self.tm(d)
        if t.op == 'dict':
            return [(x.args[0], x.args[1]) for x in t.args] if all(
                isinstance(x, T.Term) for x in t.args) else [
                    (x[0], x[1]) for x in t.args]
        return [(mk('all', t), t)]

    def judge(self, what, s, e, why):
        self.c.judge(what, s, self.S.at(e) if e is not None else self.where,
                     why)

    def opened(self):
        return T.tand(self.pc(self.ds[0]), T.tnot(T.tor(*[
            self.pc(x) for x in self.trace if x.name == '$raise'])))

    def close_events(self):
        return [e for e in self.trace if e.name == '.close' and
                self.of(e, self.ds[0].result)]


def whole(r, t):
    """Does index term t stand for everything?"""
    r = repr(t)
    return t.op == 'slicev' and r.count('None') >= 3 or \
        'Ellipsis' in r or t.op == 'ellipsis' or \
        (t.op == 'tuple' and all(whole(None, x) for x in t.args))


def same_values(a, b):
    """Is array a the array b, possibly with another data type?"""
    def clean(t):
        for _ in range(4):
            if t.op in ('astype', 'cast', 'tofloat', 'asarray') and t.args:
                t = [x for x in t.args if isinstance(x, T.Term)][0]
        return t
    return strip(clean(a)) is strip(clean(b))


def filled(r, e, values):
    """Assignments of everything to variable e -> [(same, pc, event)]"""
    out = []
    for x in r.trace:
        if x.name == '$setitem' and r.of(x, e.result):
            idx, v = x.args[-2], x.args[-1]
            out.append((whole(r, r.tm(idx)) and same_values(
                r.tm(v), values), r.pc(x), x))
    return out


def asked(c, r, tag, conds=T.TRUE):
    """Everything asked for is written when the call returns."""
    S = r.S
    if len(r.ds) != 1:
        r.judge('file opened' + tag, None if S.ip.notes else False, None,
                '%d data sets are opened' % len(r.ds))
        return
    ds = r.ds[0]
    pos, kw = r.args(ds)
    mode = pos[1] if len(pos) > 1 else kw.get('mode')
    path = pos[0] if pos else kw.get('filename')
    r.judge('file opened for writing' + tag,
            path is r.path and mode in (T.string('w'),), ds,
            'opens %s with mode %s' % (path, mode))
    opened = T.tand(r.opened(), conds)

    def always(what, e_pcs, cond, e, why):
        s, more = r.status(T.tand(cond, T.tnot(T.tor(*e_pcs))))
        r.judge(what + tag, s, e, why + (' when ' + more if more else ''))

    def atts(what, obj, rows, e, cond):
        got = r.attributes(obj)
        for k, v in rows.items():
            vals = got.get(T.string(k), [])
            wrong = [x for x in vals if x[0] is not v]
            if wrong:
                s, more = r.status(T.tand(wrong[0][1], cond))
                r.judge('%s attribute %s%s' % (what, k, tag), s, e,
                        'is set to %s' % T.show(wrong[0][0], 5))
                continue
            loose = [x for k2, xs in got.items() for x in xs
                     if k2.op != 'str']
            s, more = r.status(T.tand(cond, T.tnot(T.tor(
                *[x[1] for x in vals]))))
            r.judge('%s attribute %s%s' % (what, k, tag),
                    None if s is False and loose else s, e,
                    'not set' + (' when ' + more if more else ''))

    for i, row in r.dims.items():
        what = 'dimension %d' % i
        made = r.created('.createDimension', row['name'])
        always(what, [r.pc(e) for e in made], opened,
               made[0] if made else ds, 'not created')
        for e in made:
            size = r.named(e).get('size')
            want = S.shape('dvalues%d' % i, 0)
            r.judge('%s size%s' % (what, tag), size is want, e, 'size %s instead of %s'
                    % (T.show(size, 4) if size is not None else None,
                       T.show(want, 4)))
        vs = r.created('.createVariable', row['name'])
        variable(r, what + ' variable', row, vs, Tup([row['name']]), opened,
                 opened, tag, always, atts)
    for i, row in r.vars.items():
        vs = r.created('.createVariable', row['name'])
        empty = row['values'] is NONE
        variable(r, 'variable %d' % i, row, vs, row['dims'], opened,
                 None if empty else T.tand(opened, r.write), tag, always,
                 atts)
        for e in vs:
            fill = r.named(e).get('fill_value')
            r.judge('variable %d missing value%s' % (i, tag),
                    fill is r.nodata, e, 'fill value %s' % fill)
    if isinstance(r.gatts, Ref):
        atts('global', ds.result, r.atts['g'], ds, opened)
    got = r.attributes(ds.result).get(T.string('title'), [])
    bad = [v for v, q in got if v is not r.title]
    r.judge('title value' + tag, not bad, ds, 'title is %s' % bad)
    always('title', [q for v, q in got], T.tand(opened, T.truth(r.title)),
           ds, 'not set')


def variable(r, what, row, vs, dims, opened, written, tag, always, atts):
    ds = r.ds[0]
    always(what, [r.pc(e) for e in vs], opened, vs[0] if vs else ds,
           'not created')
    for e in vs:
        n = r.named(e)
        r.judge('%s type%s' % (what, tag), n.get('datatype') is
                r.tm(row['dtype']), e, 'type %s' % n.get('datatype'))
        d = n.get('dimensions')
        want = r.tm(dims)
        ok = d is want or d is not None and d.op in ('tuple', 'list') and \
            d.args == want.args
        r.judge('%s dimensions%s' % (what, tag), ok, e, 'dimensions %s '
                'instead of %s' % (d and T.show(d, 4), T.show(want, 4)))
        fills = filled(r, e, r.tm(row['values'])) \
            if row['values'] is not NONE else []
        wrong = [x for same, pc, x in fills if not same]
        r.judge('%s values%s' % (what, tag), not wrong if not wrong else
                (None if any(q.op == 'havoc' for x in wrong for q in T.atoms(
                    r.tm(x.args[-1]), lambda q: q.op == 'havoc'))
                 else False), wrong[0] if wrong else e, 'is given %s' % (
                     wrong and T.show(r.tm(wrong[0].args[-1]), 6)))
        if written is not None:
            always('%s filled' % what, [pc for same, pc, x in fills],
                   written, e, 'its values are not written')
        atts(what, e.result, r.atts[('d' if 'dim' in what else 'v') +
                                    what.split()[1]], e, opened)


def closing(c, r, tag, refuse=None):
    """No way out leaves the file open; `refuse`: the exception that has to
    be raised on every path."""
    if len(r.ds) != 1:
        r.judge('file opened' + tag, None if r.S.ip.notes else False, None,
                '%d data sets are opened' % len(r.ds))
        return
    ds = r.ds[0]
    fails = [q for q in T.atoms(T.tand(*[T.tor(*[r.pc(e)]) for e in
                                         r.trace]), lambda q:
                                q.op == 'raises')]
    fine = T.tand(r.pc(ds), *[T.tnot(q) for q in failed(r)])
    gone = []
    for k, e in enumerate(r.trace):
        if e.name not in ('$raise', '$noattr', '$keyerror', 'sys.exit'):
            continue
        if k < r.trace.index(ds):
            continue
        before = r.close_events()     # later ones only after this error
        s, why = r.status(T.tand(r.pc(e), fine, T.tnot(T.tor(
            *[r.pc(x) for x in before]))))
        r.judge('closed before the error at line %s%s' % (
            getattr(e.node, 'lineno', '?'), tag), s, e,
            'the file is left open' + (' when ' + why if why else ''))
        gone.append(r.pc(e))
    left = T.tand(fine, *[T.tnot(p) for p in gone])
    closes = r.close_events()
    if refuse:
        s, why = r.status(left) if not r.run.dead else (True, '')
        r.judge('refused' + tag, s, ds, 'the call returns' + (
            ' when ' + why if why else ''))
        kinds = {kind_of(x) for x in r.trace
                 if x.name == '$raise' and r.status(T.tand(
                     r.pc(x), fine))[0] is not True}
        r.judge('refused with %s%s' % (refuse, tag),
                kinds <= {refuse}, ds, 'raises %s' % sorted(map(str, kinds)))
        return
    s, why = r.status(T.tand(left, T.tnot(r.keep), T.tnot(T.tor(
        *[r.pc(x) for x in closes]))))
    r.judge('closed on return' + tag, s, closes[0] if closes else ds,
            'the file is left open' + (' when ' + why if why else ''))
    s, why = r.status(T.tand(left, r.keep, T.tor(
        *[r.pc(x) for x in closes])))
    r.judge('left open when asked' + tag, s, closes[0] if closes else ds,
            'the file is closed' + (' when ' + why if why else ''))
    v = T.subst(T.ite(T.tand(fine, r.keep), r.tm(r.run.value), ds.result),
                {r.keep: T.TRUE})
    for q in failed(r):
        v = T.subst(v, {q: T.FALSE})
    r.judge('open file is returned' + tag, v is ds.result, ds,
            'returns %s' % T.show(v, 5))
    late = []
    for x in closes:
        for e in r.trace[r.trace.index(x) + 1:]:
            if e.name.startswith('.') and e.name != '.close' and r.of(
                    e, ds.result) or e.name == '$setitem':
                if r.status(T.tand(r.pc(e), r.pc(x)))[0] is not True:
                    late.append(e)
    r.judge('nothing is written after closing' + tag, not late,
            late[0] if late else ds, 'used after it was closed')


def kind_of(e):
    x = e.args[0] if e.args else None
    while isinstance(x, T.Term) and x.args:
        x = x.args[0]
    return x


def failed(r):
    out = []
    for e in r.trace:
        for q in T.atoms(r.pc(e), lambda q: q.op == 'raises'):
            if q not in out:
                out.append(q)
    return out


def check(c):
    c.minimum = 60
    c.assume('an error raised by the netCDF library itself (not by this '
             'program) closes the file when the data set is collected')

    def one(tag, f, **kw):
        def go():
            r = Run(c, **kw)
            f(r)
        c.attempt('writer' + tag, NC, go)

    def full(r):
        asked(c, r, '')
        closing(c, r, '')
    one('', full)

    def empty(r):
        asked(c, r, ' (variable without values)')
        closing(c, r, ' (variable without values)')
    one(' of a variable without values', empty, none=(1,))

    def some(r):
        asked(c, r, ' (three dimensions)')
        closing(c, r, ' (three dimensions)')
    one(' with three dimensions', some, nd=3, nv=1)

    def bare(r):
        asked(c, r, ' (no variables)')
        closing(c, r, ' (no variables)')
    one(' without variables', bare, nv=0)

    def noglobal(r):
        asked(c, r, ' (no global attributes)')
        closing(c, r, ' (no global attributes)')
    one(' without global attributes', noglobal, gatts=False)
    for kind, keys in (('dim', DIMKEYS), ('var', VARKEYS)):
        for i in (0, 1):
            for k in keys:
                tag = ' (%s %d without %s)' % (kind, i, k)
                one(tag, lambda r, tag=tag: closing(c, r, tag, 'KeyError'),
                    drop=(kind, i, k))
    for ranks in ((1, 2), (2, 3), (3, 2)):
        tag = ' (values of rank 2 for %d and %d dimensions)' % ranks
        one(tag, lambda r, tag=tag: closing(c, r, tag, 'ValueError'),
            ranks=ranks)
