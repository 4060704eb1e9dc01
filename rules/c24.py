"""Inputs are only read, everything is written below the output folder, and
nothing else is removed.

Paths that reach an operation that writes, changes or removes a file are
followed from the configuration through the summaries of the main program
(every rank), the steps of a tile, the combination and the log (see
`effects.py` for the operations).  The last obligations say that no other
reachable call of such an operation was left out.
"""
from wmcheck import terms as T, load, reach, harness
from wmcheck.harness import Anchor
from wmcheck.terms import num, mk
from wmcheck.values import Cls
from .common import MAIN, sym
from .convert import CONVERT
from .effects import Tile, items_of, below, strip, WRITES, DELETES, OPENS
from .program import Program

LEVEL = 'proof'
LOG = (T.string('Logging'), T.string('LogFile'))


class All(object):

    def __init__(self, c):
        self.c = c
        self.roots = {mk('cfg', T.string('Output'),
                         T.string('output_dir'))}
        self.items, self.seen, self.notes = [], set(), []

    def add(self, S, run, via):
        self.notes += S.ip.notes
        for e in run.trace:
            self.mark(e)
            for i in items_of(S, run, e, T.tand(*e.pc), tuple(e.loops)):
                i.via = via
                self.items.append(i)

    def mark(self, e):
        self.seen.add((e.module, getattr(e.node, 'lineno', 0)))

    def tile(self):
        t = Tile(self.c)
        self.roots.add(t.out)
        for i in t.items:
            i.via = 'tile'
        self.items += t.items
        self.seen |= {x[:2] for x in t.seen}
        self.notes += t.notes

    def program(self, size, rank):
        p = Program(self.c, size, rank)
        self.p = p
        self.add(p.S, p.run, 'main program')

    def combination(self):
        S = self.c.session('combined')
        K = S.ip.base.heap[S.module(CONVERT).frame].vars.get('Converter')
        if not isinstance(K, Cls):
            raise Anchor('class Converter is not in the tree')
        out = sym('out', 'str')
        self.roots.add(out)
        made = S.call(K, [sym('tiles', 'any'), out])
        for name in ('process_tile', 'process_max_tile'):
            f = S.func(CONVERT, 'Converter.' + name)
            self.c.saw(S.where(f))
            run = S.call(f, [made.value, sym('name', 'str', noslash=True)],
                         st=made.st.copy())
            self.add(S, run, 'combination')

    def logs(self):
        S = self.c.session('tile')
        f = S.func('utilities.files', 'fl_start_log')
        self.c.saw(S.where(f))
        log = mk('cfg', *LOG)
        run = S.call(f, [log, sym('level', 'str')])
        self.add(S, run, 'log')


def is_log(path):
    """The log file of the run, or the folder it is in."""
    atoms = T.atoms(path, lambda q: q.op == 'cfg')
    other = T.atoms(path, lambda q: q.op in ('sym',) and 'rank' not in
                    repr(q))
    return bool(atoms) and all(a.args[:2] == LOG for a in atoms) and \
        not other or path.op == 'pjoin' and path.args[-1] == T.string(
            'multipliers.log')


def opts(path):
    """The paths a path stands for."""
    if path is not None and path.op == 'ite':
        return opts(path.args[1]) + opts(path.args[2])
    return [strip(path) if path is not None else None]


def verdict(i, roots):
    """-> True | False | None, reason."""
    res = []
    for path in opts(i.path):
        if i.e.name == 'logging.FileHandler' or path is not None and \
                i.via in ('main program', 'log') and is_log(path):
            res.append(True if path is not None and (
                is_log(path) and i.kind == 'write') else None)
            continue
        b = below(path, roots)
        if b and i.kind == 'delete' and path in roots and \
                i.via != 'main program':
            b = False
        res.append(b)
    if False in res:
        return False
    return None if None in res else True


def check(c):
    c.minimum = 25

    def go():
        a = All(c)
        a.tile()
        for size, rank in ((1, 0), (3, 0), (3, 2)):
            a.program(size, rank)
        a.combination()
        a.logs()
        done = set()
        for i in a.items:
            path = i.path
            if i.kind == 'open':
                continue
            v = verdict(i, a.roots)
            key = (i.kind, path, i.at(), v)
            if key in done:
                continue
            done.add(key)
            what = {'write': 'writes', 'delete': 'removes',
                    'change': 'changes the data set opened from'}[i.kind]
            txt = T.show(path, 8) if path is not None else 'a file'
            if i.kind == 'change' and v is True:
                v = None if below(path, a.roots) is None else True
            c.judge('%s %s' % (what, txt), v, i.at(),
                    '%s %s, which is not in the output folder' % (what, txt))
        opened = set()
        for i in a.items:
            if i.kind != 'open' or below(i.path, a.roots):
                continue
            key = (i.path, i.at())
            if key in opened:
                continue
            opened.add(key)
            txt = T.show(i.path, 8) if i.path is not None else 'a file'
            c.judge('%s is opened for reading' % txt,
                    True if not i.mode else None if i.mode is None else
                    False, i.at(), '%s is opened for writing' % txt)
        rest(c, a)
    c.attempt('effects on files', MAIN, go)


def rest(c, a):
    tree = load.Tree(harness.REPO)
    scan = reach.Scan(tree, (MAIN, 'run'))
    names = {n for n in list(WRITES) + list(DELETES)
             if not n.startswith('.')} | {'os.system', 'netCDF4.Dataset'}
    meth = {n[1:] for n in list(WRITES) + list(DELETES)
            if n.startswith('.')} - {'mkdir', 'Delete', 'touch'}
    left = {}
    for u in scan.uses:
        last = u.name.split('.')[-1]
        full = u.name.replace('osgeo.gdal', 'gdal').replace('np.', 'numpy.')
        if full in names or last in meth and full not in names:
            span = range(u.node.lineno - 3, u.node.lineno + 2)
            if not any((u.module, n) in a.seen for n in span):
                left.setdefault((u.module, u.func), []).append(
                    '%s (line %d)' % (u.name, u.node.lineno))
    for (m, q), node in sorted(scan.reached.items(), key=lambda x: x[0]):
        if (m, q) in left:
            c.undecided('other operations in %s.%s' % (m, q), '%s:%d' % (
                tree.relpath(tree.modules[m].path),
                getattr(node, 'lineno', 1)), ', '.join(left[(m, q)]))
    c.saw('%d reachable functions searched for operations on files'
          % len(scan.reached))
