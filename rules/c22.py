"""Collective steps are reached by every process, in the same order, and the
phases (folders, tiles, combination, mosaics) do not overlap.

`all_multipliers.run` is summarised for each rank (rank, number of processes
and the tiles found in the output enumerated up to a bound, everything else
unknown).  The sequence of collective operations with the conditions they are
under has to be the same on all ranks.  The order of the effects of the
phases is read off the same summaries, with collective operations as the
points where processes wait for each other.
"""
from wmcheck import terms as T, harness
from wmcheck.values import ListObj
from wmcheck.terms import num, NONE
from .common import MAIN, sym
from .program import Program, COLLECTIVE
from . import c21

LEVEL = 'other'
FOLDERS = ('os.makedirs', 'os.mkdir', 'shutil.rmtree')
OUT = 'cfg'


def strip(t):
    return harness.strip(t)


def about_output(S, e):
    out = [x for x in T.atoms(e.terms[0] if e.terms else S.ip.term(
        e.args[0], None), lambda q: q.op == 'cfg')]
    return any(x.args[:2] == ('Output', 'output_dir') or
               'output_dir' in repr(x) for x in out)


def first_term(p, e):
    if e.terms:
        return e.terms[0]
    return p.S.ip.term(e.args[0], p.run.st) if e.args else NONE


def collectives(p, run=None):
    out = []
    for e in (run or p.run).trace:
        if e.name not in COLLECTIVE:
            continue
        kw = {x.args[0]: x.args[1] for x in (e.terms or [])
              if x.op == 'kw'}
        kw = {str(getattr(n, 'args', [n])[0] if isinstance(n, T.Term)
                  else n): v for n, v in kw.items()}
        name = e.name.lower()
        root = kw.get('root')
        pos = [x for x in (e.terms or []) if x.op != 'kw'][1:]
        if root is None and name in ('.scatter', '.gather', '.bcast') and \
                len(pos) > 1:
            root = pos[1]
        if root is None:
            root = num(0)
        out.append((name, root, T.tand(*e.pc), tuple(e.loops), e))
    return out


def same(c, inst, a, b):
    """Sequences of two processes: (process, Session, list) each."""
    (na, Sa, xs), (nb, Sb, ys) = a, b
    bad, open_ = [], []
    for q in range(max(len(xs), len(ys))):
        if q >= len(xs) or q >= len(ys):
            n, S, x = (na, Sa, xs[q]) if q < len(xs) else (nb, Sb, ys[q])
            other = nb if q < len(xs) else na
            (bad if x[2] is T.TRUE or certain(x) else open_).append(
                '%s: %s of %s has no partner in %s' % (
                    S.at(x[4]), x[0][1:], n, other))
            break
        x, y = xs[q], ys[q]
        if x[0] != y[0]:
            bad.append('%s of %s (%s) meets %s of %s (%s)' % (
                x[0][1:], na, Sa.at(x[4]), y[0][1:], nb, Sb.at(y[4])))
            break
        if x[1] is not y[1]:
            bad.append('%s has another root in %s (%s)' % (
                x[0][1:], nb, Sb.at(y[4])))
        if x[3] or y[3]:
            if repr([T.show(getattr(z, 'n', NONE)) for z in x[3]]) != \
                    repr([T.show(getattr(z, 'n', NONE)) for z in y[3]]):
                open_.append('%s is in a loop' % Sa.at(x[4]))
        if x[2] is not y[2]:
            v = harness.decide(x[2], y[2])
            if v.status == 'violation':
                bad.append('%s of %s and %s are reached under different '
                           'conditions (%s, %s)' % (
                               x[0][1:], na, nb, Sa.at(x[4]), Sb.at(y[4])))
            elif v.status != 'ok':
                open_.append('conditions of %s (%s)' % (x[0][1:],
                                                        Sa.at(x[4])))
    notes = list(Sa.ip.notes) + list(Sb.ip.notes)
    c.judge(inst, False if bad else None if open_ or notes else True, MAIN,
            '; '.join(bad or open_ or notes[:1]))


def certain(x):
    """Is the step reached in the ordinary course of the program?"""
    return all(y.op in ('call', 'eff', 'cfg', 'attr', 'mcall', 'exists',
                        'truth', 'none', 'is', 'not', 'and', 'str', 'ext',
                        'kw')
               for y in T.atoms(x[2], lambda q: q.op in ('sym', 'call')))


def phases(c, p, who):
    S, run, rank = p.S, p.run, p.rank
    tr = run.trace
    where = p.where
    pos = {}
    for q, e in enumerate(tr):
        pos.setdefault(e.name, []).append(q)
    tiles = pos.get('repo:Multipliers.parallelise_on_tiles', [])
    conv = pos.get('repo:Converter.run', [])
    if len(tiles) != 1 or len(conv) != 1:
        raise harness.Unsupported('%d runs over the tiles, %d combinations'
                                  % (len(tiles), len(conv)))
    t, v = tiles[0], conv[0]
    sync = [q for q, e in enumerate(tr) if e.name in COLLECTIVE]
    bad = []
    for q, e in enumerate(tr):
        if e.name in FOLDERS and about_output(S, e):
            x = '%s %s' % (S.at(e), e.name)
            if rank != 0:
                bad.append('%s in a process other than the first' % x)
            elif q > t:
                bad.append('%s after the tiles were processed' % x)
    c.judge('output folder: ' + who, not bad, where, '; '.join(bad))
    bad = []
    ls = pos.get('os.listdir', [])
    for q in ls + [v]:
        if q < t:
            bad.append('%s is done before the tiles' % S.at(tr[q]))
        elif rank != 0 and not any(t < s < q for s in sync):
            bad.append('%s does not wait for the tiles of other processes'
                       % S.at(tr[q]))
    c.judge('tiles before combination: ' + who, not bad, where,
            '; '.join(bad))
    bad = []
    for q in pos.get('gdal.BuildVRT', []):
        if rank != 0:
            bad.append('%s builds a mosaic in process %d' % (S.at(tr[q]),
                                                             rank))
        elif not any(v < s < q and tr[s].name.lower() in (
                '.gather', '.barrier', '.allgather') for s in sync):
            bad.append('%s does not wait for the other processes' %
                       S.at(tr[q]))
    c.judge('combination before mosaics: ' + who, not bad, where,
            '; '.join(bad))


def one(c, size, n):
    names = ['e%d.0s1.0' % k for k in range(n)]
    ps = []
    for rank in range(size):
        part = None
        if rank:
            sent = ps[0].comm.sent
            part = sent[rank] if sent is not None and rank < len(sent) \
                else None
        ps.append(Program(c, size, rank, part=part, names=names))
    base = collectives(ps[0])
    for rank in range(size):
        who = 'rank %d of %d, %d tiles' % (rank, size, n)
        if rank:
            same(c, 'collective steps: ' + who,
                 ('rank 0', ps[0].S, base),
                 ('rank %d' % rank, ps[rank].S, collectives(ps[rank])))
        c.attempt('phases: ' + who, MAIN, lambda: phases(c, ps[rank], who))
    if size == 1:
        c.ok('collective steps: one process', ps[0].where)


def tiles(c, size, n):
    """Collective steps within the processing of the tiles, if any."""
    ts = [c21.tile(k) for k in range(n)]
    a = c21.summary(c, size, 0, ts)
    base = collectives(None, a[2])
    S = a[0]
    for rank in range(1, size):
        b = c21.summary(c, size, rank, ts, [lambda st: NONE])
        same(c, 'collective steps among the tiles: rank %d of %d, %d tiles'
             % (rank, size, n), ('rank 0', S, base),
             ('rank %d' % rank, b[0], collectives(None, b[2])))


def check(c):
    c.minimum = 12
    c.assume('messages are not lost; no process fails')
    c.assume('every process gets all results or its stop message before it '
             'leaves parallelise_on_tiles (C21)')
    top = 3 if c.tier == 'quick' else 5
    for size in range(1, top + 1):
        for n in (0, 1, 4) if c.tier == 'quick' else (0, 1, 2, 4, 7):
            c.attempt('%d processes, %d tiles' % (size, n), MAIN,
                      lambda: one(c, size, n))
    for size, n in ((2, 1), (3, 1)):
        c.attempt('tiles on %d processes' % size, MAIN,
                  lambda: tiles(c, size, n))
