"""Master and workers: every tile is sent to exactly one worker, every worker
is told to stop once, every result is waited for, and nobody is left waiting.

`parallelise_on_tiles` is summarised per role; the sender of a result is an
unknown, so one summary covers every order of arrival.  In the master's
summary: one message to each worker first, then a receive followed by a
message to its sender, once per tile sent; tiles in messages are all tiles,
once each, and none after the first stop message.  In the worker's summary:
receive, calculate what was received, send the result, for every tile message;
nothing after the stop message.  Numbers of tiles and processes are
enumerated up to a bound (behaviour depends on them only by comparison of the
counters).
"""
from wmcheck import terms as T, harness
from wmcheck.library import effect
from wmcheck.terms import mk, num, NONE
from wmcheck.values import Cls, Tup, ListObj
from .common import MAIN, sym
from .tiles import Tiles

LEVEL = 'other'


class Script(object):

    def __init__(self, M, size, rank, received=None):
        self.M = M
        self.attrs = {'size': num(size), 'rank': num(rank)}
        self.received = received
        self.more = False
        self.endless = False

    def call(self, o, name, a, k, st, node):
        if name != 'recv' or self.received is None:
            return None
        ip = self.M.ip
        q = sum(1 for e in ip.trace if e.name == '.recv')
        effect(self.M, '.recv', a, k, st, node, recv=o)
        if q < len(self.received):
            return self.received[q](st)
        self.more = True
        return NONE


def summary(c, size, rank, tiles, received=None):
    t = Tiles(c)
    S = t.S
    S.opaque(MAIN, 'Multipliers.open_dem', result='none')
    S.opaque(MAIN, 'Multipliers.cut_dem', result='value')
    S.opaque(MAIN, 'Multipliers.multipliers_calculate', result='value')
    t.vars['comm'] = sym('comm', 'any', comm=True)
    t.vars['MPI'] = mk('ext', 'mpi4py.MPI')
    work = S.ip.alloc(t.st, ListObj([('e', x) for x in tiles]))
    sc = S.M.scripted = Script(S.M, size, rank, received)
    f = S.func(MAIN, 'Multipliers.parallelise_on_tiles')
    c.saw(S.where(f))
    run = S.call(f, [t.obj, work], st=t.st.copy())
    S.M.scripted = None
    return S, f, run, sc


def tile(k):
    return Tup([sym('name%d' % k, 'str'), sym('wide%d' % k, 'any'),
                sym('core%d' % k, 'any')])


def words(S, run):
    """The messages in order: (kind, keyword terms, payload, event)."""
    out = []
    for e in run.trace:
        if e.name not in ('.send', '.recv', '.isend', '.ssend', '.irecv',
                          '.bcast', '.barrier', '.Barrier',
                          'repo:Multipliers.cut_dem',
                          'repo:Multipliers.multipliers_calculate'):
            continue
        pc = T.tand(*[p for p in e.pc if not about_dem(p)])
        if pc is not T.TRUE or e.loops:
            raise harness.Unsupported(
                'whether %s is reached: %s' % (e.name, T.show(pc, 5)))
        kw = {x.args[0]: x.args[1] for x in e.terms if x.op == 'kw'}
        pos = [x for x in e.terms if x.op != 'kw']
        for q, n in enumerate({'.send': ('comm', 'obj', 'dest', 'tag'),
                               '.recv': ('comm', 'buf', 'source', 'tag',
                                         'status')}.get(e.name, ())):
            if q < len(pos):
                kw.setdefault(n, pos[q])
        kw = {str(getattr(n, 'args', [n])[0] if isinstance(n, T.Term)
                  else n): v for n, v in kw.items()}
        out.append((e.name.split('.')[-1], kw, e))
    return out


def about_dem(p):
    return all(x.op in ('call', 'eff') and x.args[0] == 'gdal.Open'
               for x in T.atoms(p, lambda q: q.op in ('call', 'eff',
                                                      'sym', 'attr'))[:1])


def master(c, size, n):
    inst = '%d tiles, %d workers' % (n, size - 1)
    S, f, run, sc = summary(c, size, 0, [tile(k) for k in range(n)])
    w = S.where(f)
    ws = words(S, run)
    tiles = [S.ip.term(tile(k), run.st) for k in range(n)]
    cuts = {}
    for kind, kw, e in ws:
        if kind == 'cut_dem':
            cuts[harness.strip(S.ip.term(e.result, run.st))] = e.terms[1]
    ms = [x for x in ws if x[0] in ('send', 'recv')]
    if sc.endless:
        c.judge('master: ' + inst, False if sum(
            1 for x in ms if x[0] == 'recv') > n + size else None, w,
            'the master does not end: %d messages received for %d tiles' % (
                sum(1 for x in ms if x[0] == 'recv'), n))
        return set(), set()
    if any(x[0] not in ('send', 'recv', 'cut_dem') for x in ws):
        raise harness.Unsupported('other communication')
    bad = []
    first = ms[:size - 1]
    free = set(range(1, size))
    sent = []
    stopped = False
    tags = set()

    def payload(kw, e, who):
        p = harness.strip(kw.get('obj', NONE))
        tags.add(kw.get('tag'))
        if p is NONE:
            return None
        if p.op not in ('list', 'tuple') or len(p.args) != 2:
            raise harness.Unsupported('message ' + T.show(p, 4))
        if p.args[1] not in tiles:
            bad.append('%s sends something that is not a tile to %s: %s' % (
                S.at(e), who, T.show(p.args[1], 4)))
        elif cuts.get(p.args[0]) is not p.args[1]:
            bad.append('%s sends the elevation of another tile to %s' % (
                S.at(e), who))
        return p.args[1]
    busy = 0
    for kind, kw, e in first:
        d = kw.get('dest')
        if kind != 'send' or d is None or d.op != 'num' or \
                int(d.args[0]) not in free:
            bad.append('%s: each worker is to get one message first' %
                       S.at(e))
            continue
        free.discard(int(d.args[0]))
        p = payload(kw, e, 'worker %s' % d.args[0])
        if p is None:
            stopped = True
        else:
            if stopped:
                bad.append('%s sends a tile after a stop message' % S.at(e))
            sent.append(p)
            busy += 1
    if free:
        bad.append('workers %s get no message' % sorted(free))
    pend = None
    rtag = set()
    stopped = False
    for kind, kw, e in ms[size - 1:]:
        if kind == 'recv':
            if pend is not None:
                bad.append('%s receives twice without an answer' % S.at(e))
            pend = kw
            rtag.add(kw.get('tag'))
            if busy == 0:
                bad.append('%s waits for a result though no worker is busy'
                           % S.at(e))
            src = kw.get('source')
            if src is not None and src.op == 'num':
                bad.append('%s waits for one particular worker' % S.at(e))
            continue
        if pend is None:
            bad.append('%s sends to a worker that is not waiting' % S.at(e))
            continue
        d, stt = kw.get('dest'), pend.get('status')
        if stt is None or d not in (mk('attr', stt, 'source'),
                                    mk('mcall', stt, 'Get_source')):
            bad.append('%s does not answer the worker the result came from: '
                       '%s' % (S.at(e), T.show(d, 4) if d is not None
                               else '-'))
        pend = None
        p = payload(kw, e, 'the sender')
        if p is None:
            busy -= 1
        else:
            sent.append(p)
    if pend is not None:
        bad.append('a worker gets no answer to its result')
    if busy:
        bad.append('%d busy workers get no stop message' % busy)
    for k, x in enumerate(tiles):
        m = sum(1 for y in sent if y is x)
        if m != 1:
            bad.append('tile %d of %d is sent %d times' % (k, n, m))
    c.judge('master: ' + inst, not bad, w, '; '.join(bad))
    return tags, rtag


def worker(c, k):
    """The worker gets k tiles and then the stop message."""
    inst = 'worker: %d tiles, then stop' % k
    dems = [sym('dem%d' % q, 'str') for q in range(k)]
    ts = [tile(q) for q in range(k)]
    box = {}

    def msg(q):
        return lambda st: box['S'].ip.alloc(st, ListObj(
            [('e', dems[q]), ('e', ts[q])]))
    import rules.c21 as me
    S = None
    t = Tiles(c)
    S = t.S
    box['S'] = S
    S.opaque(MAIN, 'Multipliers.open_dem', result='none')
    S.opaque(MAIN, 'Multipliers.cut_dem', result='value')
    S.opaque(MAIN, 'Multipliers.multipliers_calculate', result='value')
    t.vars['comm'] = sym('comm', 'any', comm=True)
    t.vars['MPI'] = mk('ext', 'mpi4py.MPI')
    sc = S.M.scripted = Script(S.M, 3, 2, [msg(q) for q in range(k)] +
                               [lambda st: NONE])
    f = S.func(MAIN, 'Multipliers.parallelise_on_tiles')
    c.saw(S.where(f))
    work = S.ip.alloc(t.st, ListObj([('e', tile(9))]))
    run = S.call(f, [t.obj, work], st=t.st.copy())
    S.M.scripted = None
    ws = words(S, run)
    bad = []
    if sc.more:
        bad.append('waits for another message after the stop message')
    kinds = [x[0] for x in ws if x[0] != 'cut_dem']
    want = ['recv', 'multipliers_calculate', 'send'] * k + ['recv']
    if kinds != want:
        bad.append('does %s instead of %s' % (' '.join(kinds),
                                              ' '.join(want)))
    rtags, stags = set(), set()
    calc = [x for x in ws if x[0] == 'multipliers_calculate']
    for q, (kd, kw, e) in enumerate(calc):
        w = [dems[q], S.ip.term(ts[q], run.st)] if q < k else []
        if [harness.strip(x) for x in e.terms[1:3]] != w:
            bad.append('%s does not process the tile received' % S.at(e))
    for kd, kw, e in ws:
        if kd == 'recv':
            rtags.add(kw.get('tag'))
            src = kw.get('source')
            if src is not None and src is not num(0) and src.op == 'num':
                bad.append('%s waits for a message of process %s' % (
                    S.at(e), T.show(src, 2)))
        if kd == 'send':
            stags.add(kw.get('tag'))
            if kw.get('dest') is not num(0):
                bad.append('%s sends its result to another process' %
                           S.at(e))
    c.judge(inst, not bad, S.where(f), '; '.join(bad))
    return rtags, stags


def serial(c, n):
    S, f, run, sc = summary(c, 1, 0, [tile(k) for k in range(n)])
    bad = []
    got = []
    tiles = [S.ip.term(tile(k), run.st) for k in range(n)]
    cuts = {}
    for kind, kw, e in words(S, run):
        if kind in ('send', 'recv'):
            bad.append('%s communicates' % S.at(e))
        if kind == 'cut_dem':
            cuts[harness.strip(S.ip.term(e.result, run.st))] = e.terms[1]
        if kind == 'multipliers_calculate':
            got.append(e.terms[2])
            if cuts.get(harness.strip(e.terms[1])) is not e.terms[2]:
                bad.append('%s uses the elevation of another tile' %
                           S.at(e))
    for k, x in enumerate(tiles):
        if sum(1 for y in got if y is x) != 1:
            bad.append('tile %d is not processed exactly once' % k)
    if len(got) != n:
        bad.append('%d tiles are processed' % len(got))
    c.judge('one process: %d tiles' % n, not bad, S.where(f),
            '; '.join(bad))


def opened(c, size):
    """The process that cuts tiles has opened the DEM before: from a
    freshly made object, what cutting reads is there (what is not ends the
    program, see Check.errors)."""
    S = c.session('tile')
    S.opaque(MAIN, 'Multipliers.multipliers_calculate', result='value')
    mod = S.module(MAIN)
    fr = S.ip.base.heap[mod.frame]
    fr.vars['output_folder'] = sym('out', 'str')
    fr.vars['comm'] = sym('comm', 'any', comm=True)
    fr.vars['MPI'] = mk('ext', 'mpi4py.MPI')
    K = fr.vars.get('Multipliers')
    if not isinstance(K, Cls):
        raise harness.Anchor('class Multipliers is not in the tree')
    a = S.call(K, [sym('lcv', 'str'), sym('dem', 'str')])
    work = S.ip.alloc(a.st, ListObj([('e', tile(0))]))
    S.M.scripted = Script(S.M, size, 0, None)
    f = S.func(MAIN, 'Multipliers.parallelise_on_tiles')
    run = S.call(f, [a.value, work], st=a.st)
    S.M.scripted = None
    src = run.events('gdal.ReprojectImage')
    bad = ['%s reads %s' % (S.at(e), T.show(e.terms[0], 4)) for e in src
           if e.terms[0] is NONE]
    c.judge('the DEM is open before it is cut, %d processes' % size,
            False if bad else True if src else None, S.where(f),
            '; '.join(bad) or 'no cutting found')


def check(c):
    most, procs = (6, 4) if c.tier == 'quick' else (12, 8)
    c.minimum = 10
    c.assume('messages between two processes keep their order; a tile does '
             'not fail')
    tags = {'m': set(), 'mr': set(), 'w': set(), 'ws': set()}

    def one(size, n):
        a, b = master(c, size, n)
        tags['m'] |= a
        tags['mr'] |= b

    def wk(k):
        a, b = worker(c, k)
        tags['w'] |= a
        tags['ws'] |= b
    for size in range(2, procs + 1):
        for n in range(0, most + 1):
            c.attempt('master: %d tiles, %d workers' % (n, size - 1), MAIN,
                      lambda: one(size, n))
    for k in range(0, 4):
        c.attempt('worker: %d tiles, then stop' % k, MAIN, lambda: wk(k))
    for n in (0, 1, 4):
        c.attempt('one process: %d tiles' % n, MAIN, lambda: serial(c, n))
    for size in (1, 2):
        c.attempt('the DEM is open, %d processes' % size, MAIN,
                  lambda: opened(c, size))
    bad = [T.show(x, 2) for x in tags['m'] | tags['ws']
           if x is not None and x.op == 'num' and x.args[0] < 0]
    c.judge('messages have tags MPI allows', not bad, MAIN,
            'tag %s of a message' % ', '.join(bad))
    any_tag = {None, num(-1)}

    def match(sent, recv):
        sent = {x or num(0) for x in sent}
        if len(recv) > 1 or len(sent) > 1:
            return None if recv - any_tag else True
        return True if recv <= any_tag or sent == recv else False
    c.judge('work messages have the tag workers wait for',
            match(tags['m'], tags['w']), MAIN, '%s sent, %s awaited' % tuple(
                [T.show(x, 2) for x in s if x is not None]
                for s in (tags['m'], tags['w'])))
    c.judge('results have the tag the master waits for',
            match(tags['ws'], tags['mr']), MAIN, '%s sent, %s awaited' %
            tuple([T.show(x, 2) for x in s if x is not None]
                  for s in (tags['ws'], tags['mr'])))
