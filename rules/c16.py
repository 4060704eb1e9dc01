"""Every input is the one its setting names.

The main program is summarised for one tile with the three multipliers left
out.  The raster a step is given is followed back, through the rasters made
from others, to the file it is read from, which has to be the setting of that
input; likewise for the extents of the tiles, the folders and the log.  Every
setting any part asks for has to be in the configuration file delivered.
"""
import ast
import configparser
import os
from wmcheck import terms as T, boolean, harness
from wmcheck.terms import NONE
from wmcheck.values import ListObj, Tup
from . import c23, c33
from .common import MAIN, TERRAIN, SHIELD, TOPO, sym
from .convert import CONVERT
from .effects import strip, terms_of
from .program import hook_parallel, listing

LEVEL = 'other'
CODES, HEIGHTS = ('inputValues', 'terrain_data'), ('inputValues', 'dem_data')
FOLDER = ('Output', 'output_dir')
STEPS = (('terrain', TERRAIN, (CODES,)), ('shield', SHIELD,
         (CODES, HEIGHTS)), ('topomult', TOPO, (HEIGHTS,)))
PARTS = ('land cover', 'elevation')
DELIVERED = 'multiplier_conf.cfg'
GETS = ('config.get', 'config.getboolean', 'config.getint',
        'config.getfloat', 'config.items', 'config.options')


def settings(t):
    return {tuple(x.args[0] for x in q.args[:2]) for q in T.atoms(
        t, lambda q: q.op == 'cfg' and len(q.args) > 1 and
        all(x.op == 'str' for x in q.args[:2]))}


class Steps(object):

    def __init__(self, c):
        S = self.S = c.session('tile')
        S.opaque('utilities.files', 'fl_start_log', result='none')
        self.names = {}
        for name, module, want in STEPS:
            f = S.opaque(module, name, result='none')
            self.names['repo:' + f.name] = (name, want)
        f = S.opaque(MAIN, 'get_tiles')
        old = S.M.overrides['%s.%s' % (f.module, f.name)]
        self.grid = None

        def tiles(args, kwargs, st, node):
            old(args, kwargs, st, node)
            v = (list(args) + list(kwargs.values()) + [None])[0]
            o = st.heap.get(getattr(v, 'loc', None))
            if o is not None and hasattr(o, 'attrs'):
                self.grid = [S.ip.term(x, st) for x in o.attrs.values()]
            return S.ip.alloc(st, ListObj([('e', Tup(
                [sym('name', 'str'), sym('wide', 'any'),
                 sym('core', 'any')]))]))
        S.M.overrides['%s.%s' % (f.module, f.name)] = tiles
        f = S.opaque(CONVERT, 'Converter.run', result='value')
        run = S.M.overrides['%s.%s' % (f.module, f.name)]
        self.converted = []

        def convert(args, kwargs, st, node):
            o = st.heap.get(getattr(args[0], 'loc', None)) if args else None
            if o is not None and hasattr(o, 'attrs'):
                self.converted.append([S.ip.term(x, st)
                                       for x in o.attrs.values()])
            return run(args, kwargs, st, node)
        S.M.overrides['%s.%s' % (f.module, f.name)] = convert
        hook_parallel(S)
        S.M.scripted = c23.Single(S, 1, 0)
        self.f = S.func(MAIN, 'run')
        self.where = S.where(self.f)
        c.saw(self.where)
        try:
            with listing(S, ['a1.0s1.0_ms_n.nc']):
                self.run = S.call(self.f, [])
        finally:
            S.M.scripted = None
        self.ev = [(e, terms_of(S, self.run, e)) for e in self.run.trace]

    def sources(self, path):
        """Settings of the files the raster at `path` is made from; None
        when it is not seen how it is made."""
        made = [(e, ts) for e, ts in self.ev if e.name == '.Create' and
                any(strip(x) is path for x in ts)]
        out = set()
        for e, ts in made:
            for g, us in self.ev:
                if g.name != 'gdal.ReprojectImage' or len(us) < 2:
                    continue
                if T.atoms(us[1], lambda q: q.op == 'eff' and
                           q.args[0] == '.Create' and any(
                               strip(x) is path for x in q.args[1:]
                               if isinstance(x, T.Term))):
                    out |= opened(us[0])
        for e, ts in self.ev:
            if e.name in ('gdal.Translate', 'gdal.Warp') and len(ts) > 1 \
                    and strip(ts[0]) is path:
                out |= opened(ts[1]) or settings(ts[1])
        return out or None


def opened(t):
    """Settings of the files a raster is read from."""
    out = set()
    for q in T.atoms(t, lambda q: q.op in ('call', 'eff') and
                     q.args[0] == 'gdal.Open'):
        for x in q.args[1:]:
            if isinstance(x, T.Term):
                out |= settings(x)
    return out


def show(xs):
    return ' and '.join(sorted('%s/%s' % x for x in xs)) or 'nothing'


def judge(c, P, what, got, want, where):
    ok = got == want
    c.judge(what, True if ok else None if got is None or P.S.ip.notes
            else False, where, 'not seen' if got is None else
            'it is that of %s, not of %s' % (show(got), show(want)))


def inputs(c):
    P = Steps(c)
    seen = set()
    for e, ts in P.ev:
        if e.name not in P.names:
            continue
        name, want = P.names[e.name]
        seen.add(name)
        at = P.S.at(e)
        for k, w in enumerate(want):
            part = PARTS[w is HEIGHTS]
            got = P.sources(strip(ts[k])) if k < len(ts) else None
            judge(c, P, '%s the %s step is given' % (part, name), got, {w},
                  at)
            if k < len(ts):
                judge(c, P, 'folder of the %s of the %s step' % (
                    part, name), settings(strip(ts[k])), {FOLDER}, at)
    for name, module, want in STEPS:
        if name not in seen:
            c.judge('the %s step runs' % name, None if P.S.ip.notes else
                    False, P.where, 'it is not called')
    got = None
    if P.grid is not None:
        got = set()
        for t in P.grid:
            got |= settings(t)
    judge(c, P, 'extents of the tiles', got,
          {HEIGHTS, ('inputValues', 'upwind_length')}, P.where)
    for attrs in P.converted[:1]:
        got = set()
        for t in attrs:
            got |= settings(t)
        judge(c, P, 'folder of the conversion', got, {FOLDER}, P.where)
    for e, ts in P.ev:
        if e.name == 'repo:fl_start_log':
            for k, (what, opt) in enumerate((
                    ('file', 'LogFile'), ('level', 'LogLevel'),
                    ('echo', 'Verbose'))):
                if k < len(ts):
                    judge(c, P, '%s of the log' % what, settings(ts[k]),
                          {('Logging', opt)}, P.S.at(e))
    asked(c, P.S, P.run.trace, [ts for e, ts in P.ev], delivered())


def delivered():
    p = configparser.RawConfigParser()
    p.read(os.path.join(harness.REPO, DELIVERED))
    return p


def asked(c, S, trace, terms, conf):
    """Settings asked for are in the file delivered."""
    for e, ts in zip(trace, terms):
        if e.name not in GETS:
            continue
        ts = [strip(t) for t in ts]
        kw = [t.args[0] for t in ts if t.op == 'kw']
        ts = [t for t in ts if t.op != 'kw']
        if ts and ts[0].op == 'inst':
            ts = ts[1:]
        if any(getattr(k, 'args', [k])[0] == 'fallback' for k in kw) or \
                not ts or any(t.op != 'str' for t in ts[:2]) or \
                'has_option' in repr(e.pc) or 'has_section' in repr(e.pc):
            continue
        xs = [t.args[0] for t in ts[:2]]
        ok = conf.has_section(xs[0]) and (
            len(xs) < 2 or conf.has_option(*xs))
        c.judge('setting %s is in %s' % ('/'.join(xs), DELIVERED), ok,
                S.at(e), 'the delivered configuration has no such setting')


def others(c):
    conf = delivered()
    S = c.session()
    tr = c33.main_trace(c, S)
    if tr is not None:
        asked(c, S, tr, [e.terms or [S.ip.term(x, S.ip.base)
                                     for x in e.args] for e in tr], conf)
    S = c.session()
    f = S.func(TERRAIN, 'get_terrain_table')
    run = S.call(f, [])
    asked(c, S, run.trace, [terms_of(S, run, e) for e in run.trace], conf)
    n = 0
    for e in run.trace:
        if e.name.endswith('read_csv'):
            n += 1
            c.judge('terrain classes', True if settings(
                terms_of(S, run, e)[0]) == {('inputValues', 'terrain_table')}
                else None if S.ip.notes else False, S.at(e),
                'they are not read from the file of terrain_table')


def place(t):
    """Path relative to the folder of the code, ('cwd', ...) relative to the
    working directory; None when not known."""
    if t.op == 'call' and t.args[0] in ('os.path.realpath',
                                        'os.path.abspath',
                                        'os.path.normpath'):
        return place(t.args[1])
    if t.op == 'call' and t.args[0] == 'os.getcwd':
        return ('cwd',)
    if t.op == 'str':
        root = os.path.abspath(harness.REPO) + '/'
        if t.args[0].startswith(root):
            return join(('code',), t.args[0][len(root):])
        return join((() if t.args[0].startswith('/') else ('cwd',)),
                    t.args[0])
    if t.op == 'dirname':
        p = place(t.args[0])
        return p[:-1] if p else None
    if t.op == 'basename':
        p = place(t.args[0])
        return ('cwd', p[-1]) if p else None
    if t.op == 'pjoin':
        p = place(t.args[0])
        for x in t.args[1:]:
            if p is None or x.op != 'str':
                return None
            p = join(p, x.args[0])
        return p
    if t.op == 'call' and t.args[0] == 'inspect.getfile' or \
            '__file__' in repr(t)[:40]:
        return ('code', 'utilities', 'config.py')
    return None


def join(p, text):
    for y in text.split('/'):
        if y == '..':
            p = p[:-1] if p and p[-1] != 'cwd' else None
        elif y not in ('', '.'):
            p = p + (y,)
        if p is None:
            return None
    return p


def default(c):
    """Without a file on the command line, the one beside the code."""
    S = c.session()
    m = S.module('utilities.config')
    where = 'utilities/config.py'
    paths = []
    st = S.state()
    o = st.heap[m.frame].vars.get('configparser')
    ob = st.heap.get(getattr(o, 'loc', None))
    if ob is not None and hasattr(ob, 'attrs'):
        for v in ob.attrs.values():
            t = S.ip.term(v, st)
            if (place(t) or ('',))[-1] == DELIVERED:
                paths.append(t)
            for q in T.atoms(t, lambda q: q.op == 'eff' and
                             q.args[0] == '.read' and len(q.args) > 4):
                q = q.args[4]
                paths += q.args if q.op in ('list', 'tuple') else [q]
    got = {place(t) for t in paths}
    if not got or None in got:
        c.judge('configuration used by default', None, where, 'not seen')
        return
    c.judge('configuration used by default', got == {('code', DELIVERED)} and
            os.path.exists(os.path.join(harness.REPO, DELIVERED)), where,
            'it is %s, not the %s beside the code' % (
                ', '.join('/'.join(x) for x in got), DELIVERED))


def default_read(c):
    """It is read when the program starts, if it is there."""
    S = c.session()
    m = S.module('utilities.config')
    where = 'utilities/config.py'
    what = 'the configuration used by default is read'
    st = S.state()
    o = st.heap[m.frame].vars.get('configparser')
    ob = st.heap.get(getattr(o, 'loc', None))
    if getattr(ob, 'cls', None) is None:
        c.judge(what, None, where, 'not an object of the program')
        return
    run = S.call(ob.cls, [])
    pcs = []
    for e in run.trace:
        if e.name in ('.read', '.read_file', '.readfp') and not e.loops:
            pcs.append(T.tand(*e.pc))
    pc = T.tor(*pcs)
    there = {a: T.TRUE for a in T.atoms(
        pc, lambda q: q.op == 'call' and q.args[0] in (
            'os.path.exists', 'os.path.isfile') and
        (place(q.args[1]) or ('',))[-1] == DELIVERED)}
    pc = T.subst(pc, there) if there else pc
    # reading it at another time
    other = [n for mod in ('utilities.config', MAIN)
             for n in ast.walk(S.ip.tree.modules[mod].tree)
             if isinstance(n, ast.Call) and isinstance(
                 n.func, ast.Attribute) and n.func.attr in (
                     'read', 'read_file', 'readfp')] if not pcs else []
    own = [n.name for n in ast.walk(ob.cls.node)
           if isinstance(n, ast.FunctionDef) and n.name.startswith(
               ('get', 'items', 'options', 'sections', 'has', '__get'))]
    vague = S.ip.notes or other and not private(S, other) or own
    if pc is T.TRUE:
        c.judge(what, True, where, '')
    else:
        r = boolean.satisfy(T.tnot(pc), S.base_facts())
        c.judge(what, True if r is None else None if vague else False, where,
                'it is not read when %s' % (
                    boolean.show(r, 9) if pcs else 'the program starts'))


def private(S, calls):
    """Calls within methods nothing calls, or none of the program."""
    tree = S.ip.tree.modules['utilities.config'].tree
    mine = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                mine.add(id(n))
    return all(id(n) in mine for n in calls)


def check(c):
    c.minimum = 12
    c.assume('gdal.ReprojectImage fills its second raster from its first')
    c.attempt('inputs of the steps', MAIN, lambda: inputs(c))
    c.attempt('other settings', MAIN, lambda: others(c))
    c.attempt('default configuration', MAIN, lambda: default(c))
    c.attempt('default configuration', MAIN, lambda: default_read(c))
