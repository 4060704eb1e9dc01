"""Without MPI the same program runs in one process.

`all_multipliers.run` is summarised twice: with mpi4py missing, so that
`attempt_parallel` makes its replacement, and with a communicator of a single
process that behaves as MPI does.  Every operation used on the replacement
has to exist with the arguments given, and the two summaries have to do the
same things in the same order.
"""
from wmcheck import terms as T, harness
from wmcheck.terms import mk, num, NONE
from wmcheck.values import ListObj
from .common import MAIN, sym, DIRECTIONS
from .convert import CONVERT
from .program import PARALLEL, MPI, Comm, Program, listing, hook_parallel

LEVEL = 'proof'
QUIET = ('.barrier', '.Barrier', '.scatter', '.gather', 'time.', 'inspect.',
         'atexit.', '$caught', 'repo:attempt_parallel', '.Get_rank',
         '.Get_size', '.bcast')


class Single(Comm):
    """A communicator of one process, by the meaning of its operations."""

    def call(self, o, name, a, k, st, node):
        v = a[0] if a else k.get('sendobj', k.get('obj', NONE))
        M = self.S.M
        if name in ('scatter', 'gather', 'bcast', 'allgather', 'barrier',
                    'Barrier', 'Get_rank', 'Get_size'):
            if name == 'scatter':
                xs = M.concrete(v, st)
                return xs[0] if xs else M.getitem(v, num(0), st, node)
            if name in ('gather', 'allgather'):
                return self.S.ip.alloc(st, ListObj([('e', v)]))
            if name == 'bcast':
                return v
            return {'Get_rank': num(0), 'Get_size': num(1)}.get(name, NONE)
        return None


def session(c, scripted, missing='ModuleNotFoundError'):
    S = c.session('tile')
    S.opaque('utilities.files', 'fl_start_log', result='none')
    S.opaque(MAIN, 'Multipliers.multipliers_calculate', result='none')
    S.opaque(MAIN, 'Multipliers.cut_dem', result='value')
    S.opaque(CONVERT, 'Converter.run', result='value', state=True)
    f = S.opaque(MAIN, 'get_tiles')

    def tiles(args, kwargs, st, node):
        return sym('all_tiles', 'any')
    S.M.overrides['%s.%s' % (f.module, f.name)] = tiles
    if scripted:
        hook_parallel(S)
        S.M.scripted = Single(S, 1, 0)
    else:
        S.func(PARALLEL, 'attempt_parallel')
        S.M.missing = {'mpi4py'}
        S.M.missing_as = missing
    f = S.func(MAIN, 'run')
    c.saw(S.where(f))
    with listing(S, ['%s_ms_%s.nc' % (n, d) for n in ('a1.0s1.0', 'b2.0s1.0')
                     for d in DIRECTIONS]):
        run = S.call(f, [])
    return S, f, run


def plain(t):
    """Terms without the numbers of objects."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T.Term) or not x.args:
            return x
        if x in memo:
            return memo[x]
        if x.op in ('inst', 'obj'):
            r = mk(x.op, x.args[0], 0)
        elif x.op == 'B':
            r = x
        else:
            r = T.rebuild(x, tuple(go(y) for y in x.args))
        memo[x] = r
        return r
    return go(harness.strip(t))


def words(S, run):
    import re
    out = []
    for e in run.trace:
        if e.name.startswith(QUIET):
            continue
        ts = e.terms if e.terms is not None else [
            S.ip.term(a, run.st) for a in e.args]
        txt = '%s(%s) if %s in %s' % (
            e.name, ', '.join(repr(plain(t)) for t in ts),
            repr(plain(T.tand(*e.pc))), ' '.join(
                T.show(x[1], 9) for x in e.loops))
        out.append((re.sub(r'#\d+|\b(i|t)\d+\b', '#', re.sub(
            r'inst\((\w+), \d+\)', r'inst(\1)', txt)), e))
    return out


def check(c):
    c.minimum = 3
    c.assume('mpi4py follows its documentation for one process')

    def go():
        S, f, run = session(c, False)
        where = S.where(f)
        bad = []
        for e in run.trace:
            if e.name == '$noattr' or e.name == '$badcall':
                bad.append('%s: %s' % (S.at(e), ' '.join(
                    T.show(S.ip.term(x, run.st), 60) for x in e.args) + (
                        ' does not exist' if e.name == '$noattr' else
                        ' is called with other arguments')))
        c.judge('operations of the replacement exist',
                False if bad else None if S.ip.notes else True, where,
                '; '.join(bad or S.ip.notes[:1]))
        S2, f2, run2 = session(c, True)
        a, b = words(S, run), words(S2, run2)
        diff = []
        for x, y in zip(a, b):
            if x[0] != y[0]:
                diff.append('%s %s without MPI, %s with one process' % (
                    S.at(x[1]), x[0][:150], y[0][:150]))
                break
        names = [[w[1].name for w in ws] for ws in (a, b)]
        if names[0] != names[1] and not diff:
            diff.append('%d steps without MPI, %d with one process' % (
                len(a), len(b)))
        notes = list(S.ip.notes) + list(S2.ip.notes)
        hard = names[0] != names[1]
        c.judge('same steps as a single process of MPI',
                True if not diff and not notes else
                False if (hard or diff) and not notes else None,
                where, '; '.join(diff or notes[:1]))
        # a library of mpi4py that cannot be loaded is an ImportError
        S3, f3, run3 = session(c, False, 'ImportError')
        w = [x[0] for x in words(S3, run3)]
        d = [i for i in range(max(len(a), len(w)))
             if i >= min(len(a), len(w)) or a[i][0] != w[i]]
        c.judge('mpi4py without a library it can load',
                True if not d else None if S3.ip.notes else False, where,
                'step %s is %s with an ImportError, %s without mpi4py' % (
                    (d[0], w[d[0]][:90] if d[0] < len(w) else 'missing',
                     a[d[0]][0][:90] if d[0] < len(a) else 'missing')
                    if d else ('', '', '')))
        c.judge('the tiles are processed', any(
            e.name == 'repo:Multipliers.multipliers_calculate'
            for e in run.trace) and any(e.name == 'repo:Converter.run'
                                        for e in run.trace) or (
                None if S.ip.notes else False),
                where, 'no tile is processed')
    c.attempt('program without MPI', MAIN, go)
