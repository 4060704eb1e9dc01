"""The main program, `all_multipliers.run`, summarised for one process: the
configuration, the command line and the communicator are unknowns, rank and
number of processes are given; what the tiles do is summarised elsewhere."""
from wmcheck import terms as T
from wmcheck.library import effect, FUNCS
from wmcheck.terms import mk, num, NONE
from wmcheck.values import FrameObj, ListObj
from .common import MAIN, DIRECTIONS, sym
from .convert import CONVERT

PARALLEL = 'utilities.parallel'
RUNNER = 'utilities.mpi_runner'
COLLECTIVE = ('.barrier', '.Barrier', '.scatter', '.gather', '.bcast',
              '.allgather', '.allreduce', '.reduce', '.alltoall')
MPI = mk('ext', 'mpi4py.MPI')


class Comm(object):
    """What the communicator of process `rank` of `size` hands over."""

    def __init__(self, S, size, rank, part=None):
        self.S, self.size, self.rank = S, size, rank
        self.part = part            # what this process gets of the scatter
        self.sent = None
        self.attrs = {'size': num(size), 'rank': num(rank)}
        self.k = 0

    def call(self, o, name, a, k, st, node):
        M = self.S.M
        if name in ('Get_size', 'Get_rank'):
            return self.attrs[name[4:]]
        if '.' + name not in COLLECTIVE:
            return None
        effect(M, '.' + name, a, k, st, node, recv=o)
        if name in ('barrier', 'Barrier'):
            return NONE
        self.k += 1
        v = a[0] if a else k.get('sendobj', k.get('obj', NONE))
        if name == 'scatter':
            if self.rank == 0:
                xs = M.concrete(v, st)
                if xs is not None and self.sent is None:
                    self.sent = [[self.S.ip.term(y, st) for y in
                                  M.concrete(x, st)]
                                 if M.concrete(x, st) is not None else
                                 self.S.ip.term(x, st) for x in xs]
                return xs[0] if xs else v
            if self.part is not None:
                return self.S.ip.alloc(st, ListObj(
                    [('e', x) for x in self.part])) \
                    if isinstance(self.part, list) else self.part
        if name in ('gather', 'reduce') and self.rank != 0:
            return NONE
        return sym('%s%d' % (name, self.k), 'any', foreign=True)


def hook_parallel(S):
    S.opaque(PARALLEL, 'attempt_parallel')
    mod = S.module(PARALLEL)
    q = '%s.attempt_parallel' % PARALLEL
    old = S.M.overrides[q]

    def load(args, kwargs, st, node):
        old(args, kwargs, st, node)
        fr = st.heap[mod.frame]
        st.heap[mod.frame] = FrameObj(dict(fr.vars, MPI=MPI), fr.parent,
                                      fr.module)
        return MPI
    S.M.overrides[q] = load


class Program(object):

    def __init__(self, c, size, rank, opaque=(), specs='tile', part=None,
                 names=('a1.0s1.0',), log=False, on_tiles=None):
        S = self.S = c.session(specs)
        self.c, self.size, self.rank = c, size, rank
        hook_parallel(S)
        if log:
            S.M.log_events = True
            S.M.extra_errors = {'os.makedirs': ('OSError',),
                                'os.mkdir': ('OSError',)}
        else:
            S.opaque('utilities.files', 'fl_start_log', result='none')
        f = S.opaque(MAIN, 'Multipliers.parallelise_on_tiles',
                     result='none')
        if on_tiles is not None:
            go = S.M.overrides['%s.%s' % (f.module, f.name)]

            def process(args, kwargs, st, node):
                on_tiles()
                return go(args, kwargs, st, node)
            S.M.overrides['%s.%s' % (f.module, f.name)] = process
        f = S.opaque(MAIN, 'get_tiles')
        old = S.M.overrides['%s.%s' % (f.module, f.name)]

        def tiles(args, kwargs, st, node):
            old(args, kwargs, st, node)
            return sym('all_tiles', 'any')
        S.M.overrides['%s.%s' % (f.module, f.name)] = tiles
        S.opaque(CONVERT, 'Converter.run', result='value')
        for m, f in opaque:
            S.opaque(m, f, result='none')
        self.f = S.func(MAIN, 'run')
        self.where = S.where(self.f)
        c.saw(self.where)
        self.comm = S.M.scripted = Comm(S, size, rank, part)
        try:
            with listing(S, ['%s_ms_%s.nc' % (n, d) for n in names
                             for d in DIRECTIONS]):
                self.run = S.call(self.f, [])
        finally:
            S.M.scripted = None

    def events(self, *names):
        return [e for e in self.run.trace if e.name in names or
                any(n.startswith('repo:') and e.name.startswith(n)
                    for n in names)]


class listing(object):
    """os.listdir gives these names while the block runs; `ask` may answer
    for some folders."""

    ask = None

    def __init__(self, S, names):
        self.S, self.names = S, names

    def __enter__(self):
        self.old = FUNCS.get('os.listdir')

        def listdir(M, a, k, st, cx, node):
            effect(M, 'os.listdir', a, k, st, node)
            names = None
            if listing.ask is not None and a:
                names = listing.ask(M, a, st)
            return self.S.ip.alloc(st, ListObj(
                [('e', T.string(x)) for x in
                 (self.names if names is None else names)]))
        FUNCS['os.listdir'] = listdir

    def __exit__(self, *a):
        if self.old is None:
            FUNCS.pop('os.listdir', None)
        else:
            FUNCS['os.listdir'] = self.old
