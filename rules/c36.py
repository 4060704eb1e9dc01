"""A run starts from new, empty output folders.

The main program is summarised with a file system the analysis follows: an
output folder that holds files of an earlier run, one that holds a part of
them, an empty one, and none.
Tests for files, `rmtree`, `makedirs`, `mkdir` on paths below the output
folder work on it in program order.  When the first tile is processed, every
folder the steps write into has to be there, without anything of the earlier
run, and no step before may have failed because a folder was there or was
not.
"""
from wmcheck import terms as T
from wmcheck.check import no_raise
from wmcheck.library import FUNCS, effect
from wmcheck.terms import mk, NONE, TRUE
from .common import MAIN
from .program import Program, listing

LEVEL = 'other'
PARTS = ('terrain', 'shielding', 'topographic', 'M3', 'M3_max')


class Disk(object):
    """Folders below the output folder: path -> True if it holds files of an
    earlier run."""

    names = ('os.path.exists', 'os.path.isdir', 'os.path.lexists',
             'os.makedirs', 'os.mkdir', 'shutil.rmtree')

    def __init__(self, old, held=False):
        self.held = held          # files that cannot be removed
        self.old, self.dirs, self.root = old, {}, None
        self.unsure, self.errors, self.seen, self.where = [], [], None, ''

    def locate(self, p):
        """Path relative to the output folder; None for other places."""
        root, parts = p, []
        while root.op == 'pjoin':
            parts = [x for x in root.args[1:]] + parts
            root = root.args[0]
        if not is_output(root):
            return None
        if any(x.op != 'str' for x in parts):
            return None
        out = []
        for x in parts:
            out += [y for y in x.args[0].split('/') if y]
        if self.root is None:
            self.root = root
            if self.old is not None:
                self.dirs[()] = len(self.old) > 0
                for part in self.old:
                    self.dirs[(part,)] = True
        return tuple(out)

    def __enter__(self):
        self.saved = {n: FUNCS.get(n) for n in self.names}
        for n in ('os.path.exists', 'os.path.isdir', 'os.path.lexists'):
            FUNCS[n] = self.exists(n)
        FUNCS['shutil.rmtree'] = self.rmtree
        FUNCS['os.makedirs'] = self.make('os.makedirs')
        FUNCS['os.mkdir'] = self.make('os.mkdir')
        listing.ask = self.names_in
        return self

    def __exit__(self, *a):
        listing.ask = None
        for n, f in self.saved.items():
            if f is None:
                FUNCS.pop(n, None)
            else:
                FUNCS[n] = f

    def happens(self, M, st, name):
        """Whether the step happens in every run (with no failure)."""
        c = T.tand(*[no_raise(p) for p in st.pc])
        if c is TRUE:
            return True
        if c is not T.FALSE and not started(c):
            self.unsure.append('whether %s happens: %s' % (
                name, T.show(c, 5)))
        return c is not T.FALSE and started(c)

    def exists(self, name):
        was = FUNCS.get(name)

        def f(M, a, k, st, cx, node):
            p = M.ip.term(a[0], st) if a else None
            d = self.locate(p) if p is not None else None
            if d is not None:
                return T.TRUE if d in self.dirs else T.FALSE
            if was is None:
                return mk('call', name, p if p is not None else NONE)
            return was(M, a, k, st, cx, node)
        return f

    def names_in(self, M, a, st):
        d = self.locate(M.ip.term(a[0], st))
        if d is None:
            return None
        if d not in self.dirs:
            self.errors.append('%s: listing of %s, which is not there' % (
                M.ip.callstack[-1][1], '/'.join(d) or 'the output folder'))
            return []
        return sorted(x[len(d)] for x in self.dirs
                      if x[:len(d)] == d and len(x) == len(d) + 1) + \
            (['old'] if self.dirs[d] else [])

    def rmtree(self, M, a, k, st, cx, node):
        p = M.ip.term(a[0] if a else k.get('path', NONE), st)
        d = self.locate(p)
        r = effect(M, 'shutil.rmtree', a, k, st, node)
        if d is None or not self.happens(M, st, 'rmtree'):
            return r
        ok = len(a) > 1 or 'ignore_errors' in k or 'onerror' in k
        if d not in self.dirs and not ok:
            self.errors.append('%s: rmtree of %s, which is not there' % (
                M.ip.callstack[-1][1], '/'.join(d) or 'the output folder'))
        if self.held and ok:
            return r
        for x in list(self.dirs):
            if x[:len(d)] == d:
                del self.dirs[x]
        return r

    def make(self, name):
        def f(M, a, k, st, cx, node):
            p = M.ip.term(a[0] if a else k.get('name', k.get('path', NONE)),
                          st)
            d = self.locate(p)
            r = effect(M, name, a, k, st, node)
            M.ip.raise_point(st, name, ('OSError',), p)
            if d is None or not self.happens(M, st, name):
                return r
            ok = k.get('exist_ok', a[2] if len(a) > 2 else T.FALSE)
            if d in self.dirs and M.ip.truth(ok, st) is not TRUE:
                self.errors.append('%s: %s of %s, which is there already' % (
                    M.ip.callstack[-1][1], name,
                    '/'.join(d) or 'the output folder'))
            if name == 'os.mkdir' and d and d[:-1] not in self.dirs:
                self.errors.append('%s: mkdir of %s before the folder '
                                   'around it' % (M.ip.callstack[-1][1],
                                                  '/'.join(d)))
            for n in range(len(d) + 1):
                self.dirs.setdefault(d[:n], False)
            return r
        return f


def started(c):
    """Conditions on the configuration and the log, not on the folders."""
    return not T.atoms(c, lambda q: is_output(q))


def is_output(p):
    return p.op == 'cfg' and 'output_dir' in repr(p)


def one(c, old, size):
    disk = Disk(old)
    inst = '%s, %d process%s' % (
        'no output folder' if old is None else 'an empty output folder'
        if not old else 'files of an earlier run'
        if len(old) > 1 else 'part of an earlier run', size,
        'es' if size > 1 else '')

    def first():
        if disk.seen is None:
            disk.seen = dict(disk.dirs)
    with disk:
        P = Program(c, size, 0, on_tiles=first)
    w = P.where
    if disk.seen is None:
        c.judge('folders: ' + inst, None, w, 'no tile is processed')
        return
    vague = disk.unsure or P.S.ip.notes
    c.judge('no step fails over a folder: ' + inst,
            False if disk.errors and not vague else
            None if vague else True, w, '; '.join(disk.errors + [
                str(x) for x in list(vague)[:1]]))
    for part in PARTS:
        d = (part,)
        c.judge('folder %s is there: %s' % (part, inst),
                True if d in disk.seen else None if vague else False, w,
                'the folder is not made before the tiles are processed')
        if old and d in disk.seen:
            c.judge('folder %s is empty: %s' % (part, inst),
                    True if not disk.seen[d] else None if vague else False,
                    w, 'files of an earlier run are still in the folder')


def others(c):
    """Only the first process may remove: the others could take away what it
    has made already."""
    with Disk(PARTS) as disk:
        P = Program(c, 2, 1)
        ev = [e for e in P.run.trace if e.name == 'shutil.rmtree' and
              T.tand(*[no_raise(p) for p in e.pc]) is not T.FALSE]
    c.judge('no folder is removed by a process other than the first',
            True if not ev else None if P.S.ip.notes or disk.unsure
            else False, P.S.at(ev[0]) if ev else P.where,
            'the first process may have made it already')


def held(c):
    """A removal that is told to pass over failures leaves files behind: no
    tile may be processed then."""
    disk = Disk(PARTS, held=True)

    def first():
        if disk.seen is None:
            disk.seen = dict(disk.dirs)
    with disk:
        P = Program(c, 1, 0, on_tiles=first)
    vague = disk.unsure or P.S.ip.notes
    left = [p for p in PARTS if disk.seen and disk.seen.get((p,))]
    c.judge('files that cannot be removed are not passed over',
            True if disk.errors or disk.seen is not None and not left else
            None if vague or disk.seen is None else False, P.where,
            'the run goes on with files of an earlier run in ' +
            ', '.join(left))


def check(c):
    c.minimum = 6
    c.attempt('other processes', MAIN, lambda: others(c))
    c.attempt('files that cannot be removed', MAIN, lambda: held(c))
    c.assume('the folder around the output folder can be written')
    for size in (1, 2):
        for old in (PARTS, PARTS[:1], (), None):
            c.attempt('folders', MAIN, lambda: one(c, old, size))
