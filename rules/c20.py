"""The combination step: every tile with shielding files goes to exactly one
process, every process combines each of its tiles (product, then maximum), and
the mosaics list the files of all processes.

`parallelise_convert_on_tiles` is summarised for rank 0 and another rank,
with the files of a set of tiles; scatter and gather hand over what their
meaning says.  `Converter.run` is compared with `specs/combined.py:run` for
any list of tiles.
"""
from wmcheck import terms as T, harness
from wmcheck.library import effect, FUNCS
from wmcheck.terms import mk, num, NONE
from wmcheck.values import Tup, ListObj, Cls
from wmcheck.harness import Anchor
from .common import sym, DIRECTIONS
from .convert import CONVERT
from . import grid

LEVEL = 'other'
RUNNER = 'utilities.mpi_runner'


class Script(object):

    def __init__(self, S, size, rank, gathered=None):
        self.S, self.M, self.size = S, S.M, size
        self.rank = rank
        self.attrs = {'size': num(size), 'rank': num(rank)}
        self.gathered = gathered
        self.sent = self.root = None
        self.empty, self.to = False, None

    def call(self, o, name, a, k, st, node):
        if name not in ('scatter', 'gather'):
            return None
        effect(self.M, '.' + name, a, k, st, node, recv=o)
        v = a[0] if a else k.get('sendobj', NONE)
        root = a[1] if len(a) > 1 else k.get('root', num(0))
        if self.size == 1:
            root = num(0)
        if not isinstance(root, T.Term) or root.op != 'num':
            raise harness.Unsupported('root of the %s' % name)
        root = int(root.args[0])
        if name == 'scatter':
            self.root = root
            if self.rank != root:
                return sym('my_tiles', 'any')
            if v is NONE:
                self.empty = True
                return sym('my_tiles', 'any')
            self.sent = self.M.concrete(v, st)
            if self.sent is None:
                raise harness.Unsupported('list of work of unknown length')
            self.lists = [self.M.concrete(x, st) for x in self.sent]
            if any(x is None for x in self.lists):
                raise harness.Unsupported('work of unknown length')
            self.lists = [[self.S.ip.term(y, st) for y in x]
                          for x in self.lists]
            return self.sent[0] if self.sent else NONE
        self.result = self.S.ip.term(v, st)
        self.to = root
        if self.rank != root:
            return NONE
        return self.gathered(st)


def lst(S, st, xs):
    return S.ip.alloc(st, ListObj([('e', x) for x in xs]))


def files(k):
    return [T.string('f%d_%d' % (k, q)) for q in range(2)], \
        [T.string('m%d_%d' % (k, q)) for q in range(2)]


def summary(c, size, rank, names):
    S = c.session('combined')
    S.opaque(CONVERT, 'Converter.run', result='value')
    f = S.func(RUNNER, 'parallelise_convert_on_tiles')
    c.saw(S.where(f))

    def gathered(st):
        out = []
        for k in range(size):
            a, b = files(k)
            out.append(Tup([lst(S, st, a), lst(S, st, b)]))
        return lst(S, st, out)
    sc = S.M.scripted = Script(S, size, rank, gathered)
    listing = ['%s_ms_%s.nc' % (n, d) for n in names for d in DIRECTIONS]
    old = FUNCS.get('os.listdir')

    def listdir(M, a, k, st, cx, node):
        effect(M, 'os.listdir', a, k, st, node)
        return lst(S, st, [T.string(x) for x in listing])
    FUNCS['os.listdir'] = listdir
    try:
        run = S.call(f, [sym('path', 'str'), sym('comm', 'any', comm=True)])
    finally:
        if old is None:
            del FUNCS['os.listdir']
        else:
            FUNCS['os.listdir'] = old
        S.M.scripted = None
    return S, f, run, sc


def master(c, size, names):
    inst = '%d tiles on %d processes' % (len(names), size)
    S, f, run, sc = summary(c, size, 0, names)
    w = S.where(f)
    if S.ip.notes:
        return c.undecided(inst, w, S.ip.notes[0])
    bad = []
    ls = run.events('os.listdir')
    want = T.pjoin(sym('path', 'str'), T.string('shielding'))
    for e in ls:
        if e.terms[0] is not want and e.terms[0].op == 'pjoin' and \
                e.terms[0].args[-1].op == 'str' and \
                e.terms[0].args[-1].args[0] in ('terrain', 'topographic'):
            raise harness.Unsupported('tiles are listed from another folder')
        if e.terms[0] is not want:
            bad.append('%s lists %s' % (S.at(e), T.show(e.terms[0], 4)))
    if sc.root:
        there = 0 <= sc.root < size
        sc2 = summary(c, size, sc.root, names)[-1] if there else sc
        if not there or sc2.empty:
            c.judge('work: ' + inst, False, w, 'the tiles are listed by '
                    'process 0 and scattered by process %d' % sc.root)
            return
    if not ls or sc.sent is None:
        raise harness.Unsupported('no list of tiles is scattered')
    if len(sc.lists) != size:
        bad.append('work for %d processes is scattered' % len(sc.lists))
    got = [x for part in sc.lists for x in part]
    if any(x.op != 'str' for x in got):
        raise harness.Unsupported('names of tiles')
    got = sorted(x.args[0] for x in got)
    if got != sorted(names):
        bad.append('the processes get %s instead of %s' % (
            ' '.join(got), ' '.join(sorted(names))))
    c.judge('work: ' + inst, not bad, w, '; '.join(bad))
    bad = []
    built = {}
    if sc.to and run.events('gdal.BuildVRT'):
        c.judge('mosaic: ' + inst, False, w, 'process 0 builds the mosaics '
                'and process %d gets the files' % sc.to)
        return
    for e in run.events('gdal.BuildVRT'):
        src = e.terms[1]
        if src.op not in ('list', 'tuple'):
            raise harness.Unsupported('list of files')
        built.setdefault(e.terms[0], []).extend(src.args)
    for folder, j in (('M3', 0), ('M3_max', 1)):
        dst = T.pjoin(sym('path', 'str'), T.string(folder),
                      T.string('wind-multipliers.vrt'))
        all_ = sorted(x.args[0] for k in range(size) for x in files(k)[j])
        have = built.pop(dst, None)
        if have is None:
            bad.append('%s is not built' % T.show(dst, 4))
        elif sorted(str(x.args[0]) for x in have) != all_:
            bad.append('%s lists %s instead of %s' % (
                T.show(dst, 4), ' '.join(sorted(str(x.args[0])
                                                for x in have)),
                ' '.join(all_)))
    for x in built:
        bad.append('%s is built as well' % T.show(x, 4))
    c.judge('mosaic: ' + inst, not bad, w, '; '.join(bad))
    part(c, S, f, run, sc, inst, None)


def part(c, S, f, run, sc, inst, mine):
    """The process combines what it got and returns the files of it."""
    w = S.where(f)
    es = run.events('repo:Converter.run')
    bad = []
    if len(es) != 1:
        raise harness.Unsupported('%d runs of the converter' % len(es))
    o = es[0].args[0]
    at = run.st.heap[o.loc].attrs
    ts = S.ip.term(at['tiles'], run.st)
    if mine is None:
        mine = mk('list', *sc.lists[0])
    if ts is not mine:
        bad.append('it combines %s' % T.show(ts, 4))
    if S.ip.term(at['path'], run.st) is not sym('path', 'str'):
        bad.append('it works in %s' % T.show(S.ip.term(at['path'], run.st),
                                             4))
    if harness.strip(sc.result) is not harness.strip(
            S.ip.term(es[0].result, run.st)):
        bad.append('it returns %s' % T.show(sc.result, 4))
    c.judge('process combines its tiles: ' + inst, not bad, w,
            '; '.join(bad))


def other(c, size):
    inst = 'rank %d of %d' % (size - 1, size)
    S, f, run, sc = summary(c, size, size - 1, ['e1.0s-2.0'])
    part(c, S, f, run, sc, inst, sym('my_tiles', 'any'))
    es = run.events('gdal.BuildVRT')
    c.judge('only rank 0 builds the mosaics: ' + inst, not es, S.where(f),
            'builds %d' % len(es))


def loop(c):
    """Converter.run: for each tile the product, then the maximum."""
    S = c.session('combined')
    for m in ('process_tile', 'process_max_tile'):
        S.opaque(CONVERT, 'Converter.' + m, result='none', effect=True)
    K = S.ip.base.heap[S.module(CONVERT).frame].vars.get('Converter')
    if not isinstance(K, Cls):
        raise Anchor('class Converter is not in the tree')
    f = S.func(CONVERT, 'Converter.run')
    c.saw(S.where(f))
    made = S.call(K, [T.sym('none', 'any'), sym('path', 'str')])
    names = [T.string('t%d' % k) for k in range(3)]
    st = made.st.copy()
    made = S.call(K, [lst(S, st, names), sym('path', 'str')], st=st)
    run = S.call(f, [made.value], st=made.st.copy())
    seq = [(e.name[5:].split('.')[-1], e.terms[-1]) for e in run.trace
           if e.name.startswith('repo:') and not e.pc and not e.loops]
    bad = []
    for k in range(3):
        p = [q for q, x in enumerate(seq) if x == ('process_tile', names[k])]
        m = [q for q, x in enumerate(seq)
             if x == ('process_max_tile', names[k])]
        if len(p) != 1 or len(m) != 1:
            bad.append('tile %d is combined %d times, its maximum %d times'
                       % (k, len(p), len(m)))
        elif m[0] < p[0]:
            bad.append('the maximum of tile %d comes before its product' % k)
    c.judge('each tile is combined, then its maximum taken',
            not bad if len(seq) or not S.ip.notes else None, S.where(f),
            '; '.join(bad))
    v = run.value
    at = run.st.heap[made.value.loc].attrs
    ok = isinstance(v, Tup) and len(v.items) == 2 and \
        S.ip.term(v.items[0], run.st) is S.ip.term(at['tile_files'],
                                                   run.st) and \
        S.ip.term(v.items[1], run.st) is S.ip.term(at['max_tile_files'],
                                                   run.st)
    c.judge('the files of both products are returned', ok or None,
            S.where(f), 'value ' + T.show(S.term(run), 5))


def names(c):
    """What is cut off a file name to get the tile is not in a tile name."""
    g = grid.Grid(c)
    w, a = g.method('get_tilename', g.k)
    t = g.term(a)
    lits = [x.args[0] for x in T.atoms(t, lambda q: q.op == 'str')]
    bad = [x for x in lits if '_' in x or '/' in x]
    c.judge('names of tiles hold neither _ nor /', not bad if lits else None,
            w, 'name ' + T.show(t, 5))


def check(c):
    c.minimum = 10
    c.assume('a tile in the output has all its shielding files')
    procs, most = ((1, 2, 3, 5), (0, 1, 4)) if c.tier == 'quick' else \
        (range(1, 9), range(0, 9))
    for size in procs:
        for n in most:
            ns = ['e%d.5s-%d.25' % (140 + k // 3, 20 + k) for k in range(n)]
            c.attempt('%d tiles on %d processes' % (n, size), RUNNER,
                      lambda: master(c, size, ns))
        if size > 1:
            c.attempt('rank %d of %d' % (size - 1, size), RUNNER,
                      lambda: other(c, size))
    c.attempt('tiles of a process', CONVERT, lambda: loop(c))
    c.attempt('names of tiles', 'TileGrid', lambda: names(c))
