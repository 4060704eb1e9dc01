"""An input or tile that cannot be opened is an error.

For every opening of a file in the summaries of the steps of a tile, of the
set-up and of the combination: under the condition that the opening returned
nothing, every way on has to raise (an explicit error, the end of the
process, or the use of the missing data set); when it raised, the error must
not be taken by a handler that goes on.
"""
import ast
from wmcheck import terms as T, boolean
from wmcheck.harness import Anchor
from wmcheck.terms import mk, NONE
from wmcheck.values import Cls, Tup
from .common import MAIN, GRID, sym
from .convert import CONVERT
from .effects import Tile, Item, items_of, terms_of, strip, root
from .program import Program

LEVEL = 'proof'
NOTHING = ('gdal.Open', 'gdal.OpenEx', 'gdal.OpenShared', 'ogr.Open')
EXISTS = ('os.path.exists', 'os.path.isfile')
USES_ERR = (None, 'Exception', 'BaseException', 'AttributeError',
            'TypeError')


class Parents(object):

    def __init__(self, S):
        self.S, self.p = S, {}

    def of(self, e):
        if e.module not in self.p:
            src = self.S.tree.modules.get(e.module)
            m = {}
            if src is not None:
                for n in ast.walk(src.tree):
                    for k in ast.iter_child_nodes(n):
                        m[k] = n
            self.p[e.module] = m
        return self.p[e.module]

    def swallowed(self, e):
        """The AttributeError of using None here is taken by a handler."""
        m, n = self.of(e), e.node
        while n in m:
            up = m[n]
            if isinstance(up, ast.Try) and n in up.body:
                for h in up.handlers:
                    ts = [None] if h.type is None else \
                        h.type.elts if isinstance(h.type, ast.Tuple) else \
                        [h.type]
                    for t in ts:
                        nm = getattr(t, 'id', getattr(t, 'attr', None)) \
                            if t is not None else None
                        if nm in USES_ERR and not any(
                                isinstance(x, ast.Raise)
                                for x in ast.walk(h)):
                            return True
            n = up
        return False


def given(t, ds, e, path, raises=False, there=True):
    """Condition t once the data set is None (or its opening raised, or the
    file is not there)."""
    m = {}
    for a in T.atoms(t, lambda q: q.op in ('is', 'eq', 'truth', 'raises',
                                           'call')):
        if a.op == 'raises':
            if same_call(a, e, path):
                m[a] = T.TRUE if raises else T.FALSE
        elif a.op == 'call':
            if a.args[0] in EXISTS and strip(a.args[1]) is path:
                m[a] = T.TRUE if there else T.FALSE
        elif raises or ds is None:
            continue
        elif a.op in ('is', 'eq') and NONE in a.args and \
                ds in [strip(x) for x in a.args if isinstance(x, T.Term)]:
            m[a] = T.TRUE
        elif a.op == 'truth' and strip(a.args[0]) is ds:
            m[a] = T.FALSE
    return T.subst(t, m) if m else t


def same_call(q, e, path):
    return q.op == 'raises' and q.args[0] == e.name and \
        len(q.args) > 1 and strip(q.args[1]) is path


def opens(S, run):
    for e in run.trace:
        for i in items_of(S, run, e, T.tand(*e.pc), tuple(e.loops)):
            if i.kind == 'open' and not i.mode:
                yield e, i


def one(c, S, run, e, i, par, allowed=()):
    where = S.at(e)
    if e.result is None:
        return
    ds = strip(S.ip.term(e.result, run.st))
    name = T.show(i.path, 7) if i.path is not None else 'a file'
    stops, used = [], []
    for x in run.trace:
        p = T.tand(*x.pc)
        if x.name in ('$raise', 'sys.exit', 'os._exit', 'os.abort'):
            if x.name == 'sys.exit' and not fails(S, run, x):
                continue
            if x.name == '$raise' and S.ip.term(
                    x.args[0], run.st) == T.string('SystemExit'):
                continue
            stops.append(p)
        elif x.name.startswith('.') or x.name == 'gdal.ReprojectImage':
            ts = terms_of(S, run, x)
            if ts and any(root(t) is ds for t in ts[:2]
                          if t.op != 'kw') and not par.swallowed(x):
                used.append(p)
        elif x.name.startswith('repo:') and any(
                strip(t) is ds for t in (x.terms or [])):
            if x.name == 'repo:get_pixel_size_grids' and \
                    not par.swallowed(x):
                used.append(p)      # its first statement uses the data set
    if e.name in NOTHING:
        ok = T.tor(*[given(p, ds, e, i.path) for p in stops + used])
        cond = T.tand(given(i.pc, ds, e, i.path), T.tnot(ok))
        judge(c, '%s that opens to nothing' % name, cond, where, S,
              'when %s opens to nothing the step goes on' % name)
    if T.atoms(i.pc, lambda q: q.op == 'call' and q.args[0] in EXISTS and
               strip(q.args[1]) is i.path):
        ok = T.tor(*[given(p, None, e, i.path, there=False)
                     for p in stops])
        cond = T.tand(given(i.pc, None, e, i.path), T.tnot(ok))
        judge(c, '%s that is not there' % name, cond, where, S,
              'when %s is missing the step goes on' % name)
    ok = T.tor(*[given(p, ds, e, i.path, True) for p in stops])
    if e.taken:
        cond = T.tand(given(i.pc, ds, e, i.path, True), T.tnot(ok))
        judge(c, '%s that fails to open' % name, cond, where, S,
              'when opening %s fails the error is taken and the step goes '
              'on' % name)
    else:
        c.ok('%s that fails to open' % name, where, 'not caught')


def fails(S, run, x):
    """sys.exit with a status other than success."""
    if not x.args:
        return False
    v = S.ip.term(x.args[0], run.st)
    return not (v is NONE or v.op == 'num' and v.args[0] == 0 or
                v is T.FALSE)


def judge(c, inst, cond, where, S, text):
    try:
        r = boolean.satisfy(cond, S.base_facts())
    except boolean.Budget:
        r = 'budget'
    vague = isinstance(r, list) and any(
        T.atoms(a, lambda q: q.op in ('havoc', 'undef')) for a, v in r)
    c.judge(inst, True if r is None else None if r == 'budget' or vague
            else False, where, '%s (%s)' % (
                text, boolean.show(r) if isinstance(r, list) else r))


def steps(c, S, run, done):
    """An error of a step is not taken by a handler that goes on."""
    for e in run.trace:
        if not e.name.startswith('repo:') or e.name in QUIET:
            continue
        key = (e.name, S.at(e), e.taken)
        if key in done:
            continue
        done.add(key)
        inst = 'error of %s' % e.name[5:]
        if not e.taken:
            c.ok(inst, S.at(e), 'not caught')
            continue
        stops = []
        for x in run.trace:
            if x.name in ('$raise', 'sys.exit', 'os._exit', 'os.abort') and \
                    (x.name != 'sys.exit' or fails(S, run, x)):
                stops.append(T.tand(*x.pc))

        def raised(t):
            m = {a: T.TRUE for a in T.atoms(t, lambda q: q.op == 'raises')
                 if a.args[0] == e.name and a.args[1:] == tuple(e.terms)}
            return T.subst(t, m) if m else t
        ok = T.tor(*[raised(p) for p in stops])
        cond = T.tand(raised(T.tand(*e.pc)), T.tnot(ok))
        judge(c, inst, cond, S.at(e), S,
              'an error in %s is taken and the run goes on' % e.name[5:])


QUIET = ('repo:get_tiles', 'repo:fl_start_log', 'repo:fl_program_version')


def check(c):
    c.minimum = 12
    c.step_errors = ('RuntimeError', 'OSError')
    c.assume('GDAL reports a failed opening by None or by RuntimeError; '
             'using None as a data set raises')
    done = set()

    def run_all(S, run, skip=lambda e, i: False):
        par = Parents(S)
        for e, i in opens(S, run):
            key = (i.path, S.at(e))
            if key in done or skip(e, i):
                continue
            done.add(key)
            one(c, S, run, e, i, par)

    def tile():
        t = Tile(c)
        for via, S, run, pc in t.runs:
            if via == 'save_multiplier':
                continue
            run_all(S, run)
            steps(c, S, run, done)

    def program():
        p = Program(c, 1, 0)
        run_all(p.S, p.run)
        steps(c, p.S, p.run, done)

    def combination():
        S = c.session('combined')
        K = S.ip.base.heap[S.module(CONVERT).frame].vars.get('Converter')
        if not isinstance(K, Cls):
            raise Anchor('class Converter is not in the tree')
        made = S.call(K, [sym('tiles', 'any'), sym('out', 'str')])
        f = S.func(CONVERT, 'Converter.process_max_tile')
        run_all(S, S.call(f, [made.value, sym('name', 'str')],
                          st=made.st.copy()))
        f = S.func(CONVERT, 'Converter.process_tile')
        run = S.call(f, [made.value, sym('name', 'str')], st=made.st.copy())
        n = [0]

        def rest(e, i):
            n[0] += 1       # the first gives the grid; C19 has the others
            return n[0] > 1
        run_all(S, run, rest)

    def tiles():
        from .c21 import summary, tile as info
        for size, rank, got in ((1, 0, None), (2, 0, None), (2, 1, 1)):
            if got:
                got = [lambda st: Tup([sym('dem_file', 'str'), info(0)]),
                       lambda st: NONE]
            S, f, run, sc = summary(c, size, rank, [info(0), info(1)], got)
            steps(c, S, run, done)
        S = c.session('combined')
        S.opaque(CONVERT, 'Converter.process_tile', result='none')
        S.opaque(CONVERT, 'Converter.process_max_tile', result='none')
        K = S.ip.base.heap[S.module(CONVERT).frame].vars.get('Converter')
        made = S.call(K, [sym('tiles', 'any'), sym('out', 'str')])
        f = S.func(CONVERT, 'Converter.run')
        steps(c, S, S.call(f, [made.value], st=made.st.copy()), done)
    c.attempt('all tiles', 'parallelise_on_tiles', tiles)
    c.attempt('steps of a tile', 'multipliers_calculate', tile)
    c.attempt('main program', 'run', program)
    c.attempt('combination', 'Converter', combination)
