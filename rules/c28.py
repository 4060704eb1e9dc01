"""Multiplier files describe their grid and where they come from.

The call of the netCDF writer in the summary of save_multiplier is read: the
axes, the multiplier, the reference system and the settings of the run must be
among what it is given.  Version control is asked for in the directory of the
source, and every way it can fail is handled.
"""
import re
from wmcheck import terms as T, harness, models, library
from wmcheck.terms import mk, num, NONE
from .common import NC, DIRECTIONS, sym
from .effects import strip

LEVEL = 'proof'
NAMES = {'Mz': 'terrain', 'Ms': 'shielding', 'Mt': 'topographic'}
LONG = {'n': 'north', 's': 'south', 'e': 'east', 'w': 'west'}
CONFIG = {'inputValues': ['terrain_data', 'dem_data'],
          'Preferences': ['upwind_fetch'], 'Empty': [],
          'Output': ['output_folder', 'log']}
GIT = (['FileNotFoundError'], ['PermissionError'], ['NotADirectoryError'],
       ['CalledProcessError'])
RUNS = ('subprocess.check_output', 'subprocess.run', 'subprocess.call',
        'subprocess.check_call', 'subprocess.Popen', 'os.popen',
        'subprocess.getoutput', 'subprocess.getstatusoutput', 'os.system')
#: those that raise for a command that fails (with check for run)
MISSING = RUNS[:5]


def pairs(t):
    """[(key, value)] of a dictionary term, or None."""
    t = strip(t)
    if t.op == 'dict' and all(x.op == 'tuple' and len(x.args) == 2
                              for x in t.args):
        return [x.args for x in t.args]
    if t.op in ('list', 'tuple'):
        return [(num(i), x) for i, x in enumerate(t.args)]
    return None


def table(t):
    ps = pairs(t)
    if ps is None:
        return None
    return {k.args[0] if k.op == 'str' else k: v for k, v in ps}


def session(c):
    S = c.session()
    S.opaque(NC, 'nc_save_grid', result='none')
    S.M.config_model = CONFIG
    return S


def save(c, name, path, errors=None):
    S = session(c)
    f = S.func(NC, 'save_multiplier')
    old = dict(models.OPEN_ERRORS)
    try:
        for n in RUNS:
            models.OPEN_ERRORS.pop(n, None)
            if errors:
                models.OPEN_ERRORS[n] = tuple(errors)
        r = S.call(f, [name, S.array('v'), S.vector('lat'), S.vector('lon'),
                       path])
    finally:
        models.OPEN_ERRORS.clear()
        models.OPEN_ERRORS.update(old)
    return S, f, r


def writer(S, r):
    """Arguments of the call of the writer, by name."""
    ev = [e for e in r.trace if e.name == 'repo:nc_save_grid']
    if not ev:
        return None, None
    g = S.func(NC, 'nc_save_grid')
    a = g.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    return ev, dict(zip(names, [strip(t) for t in ev[0].terms]))


class Reader(object):
    def __init__(self, c, S, where, tag):
        self.c, self.S, self.where, self.tag = c, S, where, tag

    def same(self, what, got, want):
        c = self.c
        if got is None:
            c.judge(what + self.tag, None if self.S.ip.notes else False,
                    self.where, 'it is not given')
            return
        got, want = strip(got), strip(want)
        if got is want:
            c.judge(what + self.tag, True, self.where, '')
            return
        if got.op == 'str' and want.op == 'str' or \
                got.op == 'num' and want.op == 'num':
            c.judge(what + self.tag, False, self.where,
                    '%s, not %s' % (T.show(got, 4), T.show(want, 4)))
            return
        if got.op == want.op and got.op in ('tuple', 'list') and \
                len(got.args) == len(want.args):
            for k, (x, y) in enumerate(zip(got.args, want.args)):
                self.same('%s, part %d' % (what, k), x, y)
            return
        r = harness.decide(got, want, self.S.base_facts())
        c.judge(what + self.tag, {'ok': True, 'violation': False}.get(
            r.status), self.where, '%s, not %s' % (T.show(got, 5),
                                                   T.show(want, 5)))

    def text(self, what, got, test, why):
        c = self.c
        if got is None:
            c.judge(what + self.tag, None if self.S.ip.notes else False,
                    self.where, 'it is not given')
        elif strip(got).op != 'str':
            c.judge(what + self.tag, None, self.where, T.show(got, 5))
        else:
            s = strip(got).args[0]
            c.judge(what + self.tag, bool(test(s)), self.where,
                    '%s: %r' % (why, s[:120]))


def on(t):
    return None if t is None else T.truth(t)


def expected(S):
    st = S.state()
    out = {}
    for n in ('lat', 'lon', 'v'):
        v = S.array(n)(st) if n == 'v' else S.vector(n)(st)
        out[n] = S.ip.term(v, st)
        for f in ('min', 'max', 'nanmin', 'nanmax'):
            out[n, f] = S.ip.term(library.call_ext(
                S.M, 'numpy.' + f, [v], {}, st, None, None), st)
    return out


def grid_rules(c):
    S, f, r = save(c, T.string('Mt'), sym('path', 'str'))
    where = S.where(f)
    c.saw(where)
    ev, a = writer(S, r)
    if not ev:
        c.judge('the file is written', None if S.ip.notes else False, where,
                'nc_save_grid is not called')
        return
    R = Reader(c, S, where, '')
    c.judge('the file is written once', len(ev) == 1 and not ev[0].loops and
            T.tand(*ev[0].pc) is T.TRUE or
            (None if S.ip.notes or len(ev) > 1 else False), where,
            'only when %s' % T.show(T.tand(*ev[0].pc), 5))
    want = expected(S)
    R.same('the file named', a.get('filename'), sym('path', 'str'))
    R.same('missing cells', a.get('nodata'), num(-9999))
    R.same('the data are written', on(a.get('writedata')), T.TRUE)
    R.same('the file is closed', on(a.get('keepfileopen', T.FALSE)),
           T.FALSE)
    dims = pairs(a.get('dimensions', NONE))
    if dims is None:
        c.undecided('the axes', where, T.show(a.get('dimensions'), 4))
        return
    dims = [table(v) for k, v in sorted(
        dims, key=lambda p: p[0].args[0] if p[0].op == 'num' else 0)]
    if len(dims) != 2 or None in dims:
        c.judge('two axes', False if None not in dims else None, where,
                '%d axes' % len(dims))
        return
    for d, (n, std, unit, axis) in zip(dims, (
            ('lat', 'latitude', ('degrees_north', 'degree_north',
                                 'degrees_N', 'degree_N'), 'Y'),
            ('lon', 'longitude', ('degrees_east', 'degree_east',
                                  'degrees_E', 'degree_E'), 'X'))):
        tag = ' of the %s axis' % std
        at = table(d.get('atts', NONE)) or {}
        R.same('name' + tag, d.get('name'), T.string(n))
        R.same('values' + tag, d.get('values'), want[n])
        R.text('type' + tag, d.get('dtype'), lambda s: s in (
            'd', 'f8', 'float64', 'double'), 'not double')
        R.same('standard_name' + tag, at.get('standard_name'),
               T.string(std))
        R.text('units' + tag, at.get('units'), lambda s: s in unit,
               'not the units of a ' + std)
        R.same('axis' + tag, at.get('axis'), T.string(axis))
        R.same('actual_range' + tag, at.get('actual_range'),
               mk('tuple', want[n, 'min'], want[n, 'max']))
    vs = pairs(a.get('variables', NONE))
    vs = [table(v) for k, v in vs] if vs is not None else [None]
    if None in vs:
        c.undecided('the variables', where, T.show(a.get('variables'), 4))
        return
    by = {strip(v.get('name', NONE)): v for v in vs}
    v = by.get(T.string('Mt'))
    if v is None:
        c.judge('the multiplier is a variable', False if not S.ip.notes
                else None, where, 'no variable Mt')
    else:
        at = table(v.get('atts', NONE)) or {}
        R.same('axes of the multiplier', v.get('dims'), mk(
            'tuple', T.string('lat'), T.string('lon')))
        R.same('values of the multiplier', v.get('values'), want['v'])
        R.same('actual_range of the multiplier', at.get('actual_range'),
               mk('tuple', want['v', 'nanmin'], want['v', 'nanmax']))
        R.text('type of the multiplier', v.get('dtype'), lambda s: s in (
            'f', 'f4', 'float32', 'd', 'f8', 'float64'), 'not a float')
    crs = [x for x in vs if 'grid_mapping_name' in (
        table(x.get('atts', NONE)) or {})]
    if not crs:
        c.judge('the reference system is a variable', False if not S.ip.notes
                else None, where, 'no variable has a grid_mapping_name')
    else:
        at = table(crs[0]['atts'])
        R.same('reference system', at.get('grid_mapping_name'),
               T.string('latitude_longitude'))
        R.same('semi-major axis', at.get('semi_major_axis'), num(6378137))
        R.same('prime meridian', at.get('longitude_of_prime_meridian'),
               num(0))
        x = strip(at.get('inverse_flattening', NONE))
        c.judge('flattening', None if x.op != 'num' else
                abs(float(x.args[0]) - 298.2572) < 1e-3, where,
                T.show(x, 3))
    g = table(a.get('gatts', NONE))
    if g is None:
        c.undecided('the attributes of the file', where,
                    T.show(a.get('gatts'), 4))
        return
    for s in CONFIG:
        for o in CONFIG[s]:
            R.same('setting %s of section %s' % (o, s),
                   g.get('%s_%s' % (s, o)),
                   mk('cfg', T.string(s), T.string(o)))
    for n in ('Abstract', 'Lineage', 'Inputs', 'Custodian', 'Created_on',
              'Created_by', 'Git_version', 'Python_version', 'Conventions'):
        c.judge('attribute ' + n, True if n in g else
                None if S.ip.notes else False, where, 'not given')
    x = strip(g.get('Conventions', NONE))
    R.text('conventions', g.get('Conventions'),
           lambda s: re.match(r'CF-1\.\d+$', s), 'not CF')
    t = g.get('Inputs', NONE)
    for o in ('terrain_data', 'dem_data'):
        cfg = mk('cfg', T.string('inputValues'), T.string(o))
        c.judge('the inputs name %s' % o, True if T.atoms(
            t, lambda q: q is cfg) else None if T.atoms(
                t, lambda q: q.op == 'havoc') else False, where,
            T.show(t, 5))


def mentions(s, d):
    words = re.findall('[a-z]+', s.lower())
    long_ = ''.join(LONG[x] for x in d)
    return d in words or long_ in words or (
        len(d) == 2 and [LONG[d[0]], LONG[d[1]]] in
        [words[i:i + 2] for i in range(len(words))])


def abstract_rules(c):
    for name in sorted(NAMES):
        for d in DIRECTIONS:
            for folder in ('/out/', 'a_n/w.e/'):
                path = '%sx_%s_%s.nc' % (folder, name.lower(), d)
                S, f, r = save(c, T.string(name), T.string(path))
                ev, a = writer(S, r)
                g = table((a or {}).get('gatts', NONE)) or {}
                R = Reader(c, S, S.where(f), ' of ' + path)
                x = g.get('Abstract')
                R.text('kind of multiplier in the abstract', x,
                       lambda s: NAMES[name] in s.lower() and not any(
                           q in s.lower() for k, q in NAMES.items()
                           if k != name), 'not the %s' % NAMES[name])
                R.text('direction in the abstract', x,
                       lambda s: mentions(s, d) and not any(
                           mentions(s, q) for q in DIRECTIONS
                           if q != d and not (
                               len(d) == 2 and q in d and not
                               re.search(r'\b%s\b' % q, s))),
                       'not the direction %s' % d)


def own_dir(t, S):
    """The directory a term names: True below the source, False elsewhere,
    None unknown."""
    t = strip(t)
    ok = set(str(m.path) for m in S.tree.modules.values()
             if not m.name.startswith('spec_'))
    if t is NONE:
        return False
    if T.atoms(t, lambda q: q.op in ('call', 'eff') and q.args[0] in (
            'os.getcwd', 'os.curdir')):
        return False
    if t.op == 'str':
        return t.args[0].startswith(str(S.tree.root)) and \
            len(str(S.tree.root)) > 1
    if T.atoms(t, lambda q: q.op in ('cfg', 'sym')):
        return False
    if T.atoms(t, lambda q: q.op == 'str' and q.args[0] in ok):
        return True
    return None


def git_rules(c):
    tags = {}
    for errs in GIT:
        S, f, r = save(c, T.string('Mz'), sym('path', 'str'), errs)
        where = S.where(f)
        runs = [e for e in r.trace if e.name in RUNS]
        w = [e for e in r.trace if e.name == 'repo:nc_save_grid']
        if errs == GIT[0] and not runs:
            c.judge('version control is asked for the version',
                    None, where, 'no command is run')
        for e in runs:
            kw = {k: S.ip.term(v, r.st) for k, v in e.kwargs.items()}
            n = tags.setdefault((e.name, errs[0]), 0)
            tags[e.name, errs[0]] += 1
            tag = '%s of command %d' % (errs[0], n + 1)
            at = S.at(e)
            if errs == ['CalledProcessError'] and e.name not in (
                    'subprocess.check_output', 'subprocess.check_call') \
                    and strip(kw.get('check', T.FALSE)) is T.FALSE:
                c.judge(tag + ' is handled', True, at, '')
            elif e.name in RUNS[5:]:
                c.judge(tag + ' is handled', True, at, '')
            else:
                gone = any(q.name == '$raise' for q in r.trace) or r.dead
                c.judge(tag + ' is handled', True if e.taken and not gone
                        else None if gone and e.taken else False, at,
                        'the file is not written when %s raises %s' % (
                            e.name, errs[0]))
            t = kw.get('timeout')
            if errs == GIT[0]:
                argv = S.ip.term(e.args[0], r.st) if e.args else NONE
                cwd = kw.get('cwd')
                if cwd is None and argv.op in ('list', 'tuple'):
                    xs = list(argv.args)
                    for k, x in enumerate(xs[:-1]):
                        if x is T.string('-C'):
                            cwd = xs[k + 1]
                        elif x is T.string('--git-dir'):
                            cwd = xs[k + 1]
                c.judge('command %d is run in the directory of the source' %
                        (n + 1), own_dir(NONE if cwd is None else cwd, S),
                        at, 'it runs in %s' % (
                            'the working directory' if cwd is None
                            else T.show(cwd, 4)))
        whole = T.tor(*[T.tand(*e.pc) for e in w])
        c.judge('the file is written after %s' % errs[0], True if
                whole is T.TRUE else None if S.ip.notes or w else False,
                where, 'only when %s' % T.show(whole, 4))


def check(c):
    grid_rules(c)
    abstract_rules(c)
    git_rules(c)
    c.minimum = 60
