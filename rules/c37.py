"""Every process logs to a file of its own.

The main program is summarised for each rank with the set-up of the log
included; the name given to the logging system is evaluated for the state of
the folder of the log (there, made, cannot be made) and for log file names of
several shapes, the rest of the program unknown.
"""
import os.path
from wmcheck import terms as T, boolean, load, reach, harness
from .common import MAIN
from .effects import strip, terms_of
from .program import Program

LEVEL = 'other'
HERE = ('os.path.exists', 'os.path.isdir')
MESSAGES = ('debug', 'info', 'warning', 'warn', 'error', 'critical',
            'exception', 'log')
NAMES = ('/data/log/multipliers.log', 'run.log', 'out/log', '/d/a.b/x_1',
         '/d/x_10.log', './m.1.log')
STATES = (('its folder is there', True, False),
          ('its folder is made', False, False),
          ('its folder cannot be made', False, True))
RANKS = (0, 1, 2, 9, 10, 11, 19, 100)


def fill(t, name, there, fails):
    """The term for one state of the file system."""
    t = T.subst(t, {q: T.string(name) for q in T.atoms(
        t, lambda q: q.op == 'cfg' and q.args[:2] and
        repr(q).find('LogFile') >= 0)})
    for _ in range(8):
        m = {}
        for q in T.atoms(t, lambda q: q.op in ('call', 'raises', 'truth')):
            if q.op == 'call' and q.args[0] == 'os.getcwd':
                m[q] = T.string('/cwd')
            elif q.op == 'call' and q.args[0] in (
                    'os.path.realpath', 'os.path.abspath',
                    'os.path.normpath'):
                p = flat(q.args[1])
                if p is not None:
                    m[q] = T.string(p if p.startswith('/') else '/cwd/' + p)
            elif q.op == 'call' and q.args[0] in HERE:
                p = flat(q.args[1])
                if p is not None:
                    m[q] = T.TRUE if there or p in ('', '/cwd', '.') \
                        else T.FALSE
            elif q.op == 'raises' and q.args[0] in ('os.makedirs',
                                                    'os.mkdir'):
                p = flat(q.args[1])
                if p is not None:
                    m[q] = T.TRUE if fails and p not in (
                        '', '/cwd', '.') else T.FALSE
        if not m:
            break
        t = T.subst(t, m)
    return t


def flat(t):
    if t.op == 'str':
        return t.args[0]
    if t.op == 'pjoin':
        xs = [flat(x) for x in t.args]
        if None not in xs:
            return os.path.join(*xs)
    if t.op == 'cat':
        xs = [flat(x) for x in t.args]
        if None not in xs:
            return ''.join(xs)
    if 'strftime' in t.args or '.strftime' in t.args:
        return 'DATE'
    if t.op in ('lower', 'upper') or t.op == 'strop' and t.args[0] in (
            'lstrip', 'rstrip', 'strip', 'replace', 'zfill', 'lower',
            'upper'):
        name, xs = (t.op, t.args) if t.op != 'strop' else \
            (t.args[0], t.args[1:])
        xs = [flat(x) for x in xs]
        if None not in xs and name != 'zfill':
            return getattr(xs[0], name)(*xs[1:])
    if t.op == 'tostr':
        return flat(t.args[0])
    if t.op in ('stem', 'suffix'):
        x = flat(t.args[0])
        if x is not None:
            return os.path.splitext(x)[t.op == 'suffix']
    if t.op in ('dirname', 'basename'):
        x = flat(t.args[0])
        if x is not None:
            return getattr(os.path, t.op)(x)
    return None


class Log(object):
    """Where one process logs to."""

    def __init__(self, c, size, rank):
        self.size, self.rank = size, rank
        p = self.p = Program(c, size, rank, log=True)
        self.S, run = p.S, p.run
        self.files, self.early, self.levels = [], [], []
        for e in run.trace:
            ts = e.terms if e.terms is not None else terms_of(
                self.S, run, e)
            kw = {q.args[0]: q.args[1] for q in ts if q.op == 'kw'}
            kw = {getattr(k, 'args', [k])[0]: v for k, v in kw.items()}
            pos = [q for q in ts if q.op != 'kw']
            if e.name == 'logging.basicConfig':
                if kw.get('filename', T.NONE) is not T.NONE:
                    self.files.append((kw['filename'], e))
                    self.levels.append((kw.get('level'), e))
                elif not self.files:
                    self.early.append(e)
            elif e.name.startswith('logging.') and \
                    e.name.endswith('FileHandler'):
                n = pos[0] if pos else kw.get('filename')
                if n is not None:
                    self.files.append((n, e))
            elif e.name.startswith('logging.') and \
                    e.name.split('.')[-1] in MESSAGES:
                if not self.files:
                    self.early.append(e)
        self.stops = T.tor(*[T.tand(*e.pc) for e in run.trace if e.name in (
            '$raise', 'sys.exit') and not e.loops])

    def names(self, name, there, fails):
        """-> list of file names, or None when not evaluated."""
        out = []
        for t, e in self.files:
            pc = fill(T.tand(*e.pc), name, there, fails)
            if pc is T.FALSE:
                continue
            v = flat(fill(t, name, there, fails))
            if v is None or e.loops:
                return None
            out.append(v)
        return out


def status(cond, S):
    try:
        r = boolean.satisfy(cond, S.base_facts())
    except boolean.Budget:
        return None, 'too many conditions'
    if r is None:
        return True, ''
    vague = T.atoms(cond, lambda q: q.op in ('havoc', 'undef'))
    return (None if vague or S.ip.notes else False), boolean.show(r, 9)


def base(p):
    return os.path.normpath(p)


def run_rules(c, size, ranks):
    logs = {r: Log(c, size, r) for r in ranks}
    for r in ranks:
        lg = logs[r]
        tag = ' (rank %d of %d)' % (r, size)
        if not lg.files:
            c.judge('log file' + tag, None if lg.S.ip.notes else False,
                    lg.p.where, 'no log file is set')
            return
        level(c, lg, tag)
        e = lg.files[0][1]
        some = T.tor(*[T.tand(*e.pc) for t, e in lg.files])
        s, why = status(T.tand(T.tnot(some), T.tnot(lg.stops)), lg.S)
        c.judge('every run has a log file' + tag, s, lg.S.at(e),
                'none is set when ' + why)
        bad = []
        for x in lg.early:
            s, why = status(T.tand(*x.pc), lg.S)
            if s is not True:
                bad.append((s, '%s logs before the log file is set, which '
                            'is ignored then' % lg.S.at(x)))
        c.judge('no message before the log file is set' + tag,
                True if not bad else False if any(
                    b[0] is False for b in bad) else None, lg.p.where,
                '; '.join(b[1] for b in bad[:2]))
    for what, there, fails in STATES:
        seen, dup, wrong, vague = {}, [], [], []
        for name in NAMES:
            mine = {}
            for r in ranks:
                v = logs[r].names(name, there, fails)
                if v is None or len(v) != 1:
                    vague.append((r, name))
                    if v:
                        dup.append('rank %d has log files %s' % (r, v))
                    continue
                v = base(v[0])
                if v in mine:
                    dup.append('ranks %d and %d of %d both log to %s for '
                               'LogFile %s' % (mine[v], r, size, v, name))
                mine[v] = r
                if r == 0 and not fails and v not in (
                        base(name), base('/cwd/' + name)):
                    wrong.append('%s instead of %s' % (v, name))
                if fails and not v.startswith('/cwd/') and '/' in v:
                    wrong.append('%s, not in the working directory' % v)
                if r > 0 and str(r) not in v.rsplit('/', 1)[-1]:
                    wrong.append('rank %d: %s' % (r, v))
        e = logs[ranks[-1]].files[0][1]
        at = logs[ranks[-1]].S.at(e)
        if len(ranks) > 1:
            c.judge('one log file for each of ranks %s of %d when %s' % (
                ', '.join(str(r) for r in ranks), size, what),
                False if dup else None if vague else True, at,
                '; '.join(dup[:2]) or 'names are not evaluated')
        c.judge('names of the log files of %d processes when %s' % (
            size, what), False if wrong else None if vague else True, at,
            '; '.join(wrong[:2]) or 'names are not evaluated')


def level(c, lg, tag):
    """The level set is that of the setting, for every run."""
    want = {('Logging', 'LogLevel')}
    for t, e in lg.levels:
        if t is None:
            c.judge('level of the log' + tag, None if lg.S.ip.notes else
                    False, lg.S.at(e), 'no level is set')
            continue
        got = {tuple(x.args[0] for x in q.args[:2]) for q in T.atoms(
            t, lambda q: q.op == 'cfg' and len(q.args) > 1)}
        c.judge('level of the log' + tag, True if got == want else
                None if lg.S.ip.notes else False, lg.S.at(e),
                'the level is %s' % T.show(t, 6))


def import_time(c):
    tree = load.Tree(harness.REPO)
    scan = reach.Scan(tree, (MAIN, 'run'))
    for m in sorted(scan.modules):
        if not tree.modules[m].text.strip():
            continue
        bad = ['%s line %d' % x for x in reach.import_calls(scan, m)
               if x[0].startswith('logging.') and x[0].split('.')[1] in
               MESSAGES + ('basicConfig',)]
        c.judge('no message while %s is imported' % m, not bad,
                tree.relpath(tree.modules[m].path), ', '.join(bad) +
                ': the log file set later is ignored')


def check(c):
    c.minimum = 20
    c.assume('logging.basicConfig sets the file only when the root logger '
             'has no handler yet; logging.info and the like give it one')
    for size, ranks in ((1, (0,)), (2, (0, 1)), (128, RANKS)):
        c.attempt('log files of %d processes' % size, MAIN,
                  lambda: run_rules(c, size, ranks))
    c.attempt('messages at import', MAIN, lambda: import_time(c))
