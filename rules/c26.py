"""The working directory is the same before and after every step.

Typestate over the syntax trees of the functions reachable from the main
program: a function that changes the working directory has to be back in the
directory it remembered on every way out, also when a call in between fails.
"""
import ast
from wmcheck import reach, load, harness
from .common import MAIN

LEVEL = 'proof'
CHDIR = ('os.chdir', 'os.fchdir', 'posix.chdir')
CWD = ('os.getcwd', 'os.getcwdb', 'pathlib.Path.cwd')
SAFE = ('log.', 'logging.', 'logger.', 'os.getcwd')


class Flow(object):
    """Ways out of statements: sets of states (moved, saved names)."""

    def __init__(self, scan, module):
        self.scan, self.module = scan, module

    def name(self, call):
        return self.scan.dotted(self.module, call.func) or '?'

    def simple(self, node, states):
        """Effects of the calls in one statement -> (normal, exceptional)."""
        exc = set()
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await))
               for n in ast.walk(node)):
            exc |= states
        calls = sorted((n for n in ast.walk(node)
                        if isinstance(n, ast.Call)),
                       key=lambda n: (n.end_lineno, n.end_col_offset))
        for c in calls:
            nm = self.name(c)
            if nm in CHDIR:
                exc |= states
                a = c.args[0] if c.args else c.keywords[0].value \
                    if c.keywords else None
                out = set()
                for moved, saved in states:
                    back = isinstance(a, ast.Name) and a.id in saved
                    out.add((not back, saved))
                states = out
            elif not nm.startswith(SAFE):
                exc |= states
        if isinstance(node, ast.Assign) and isinstance(
                node.value, ast.Call) and self.name(node.value) in CWD:
            names = frozenset(t.id for t in node.targets
                              if isinstance(t, ast.Name))
            states = {(m, s if m else s | names) for m, s in states}
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.For)):
            lost = {n.id for t in getattr(node, 'targets', None) or
                    [node.target] for n in ast.walk(t)
                    if isinstance(n, ast.Name)}
            states = {(m, s - lost) for m, s in states}
        return states, exc

    def block(self, body, states):
        """-> normal, exceptional, returned, loop exits."""
        exc, ret, brk = set(), set(), set()
        for n in body:
            if not states:
                break
            states, e, r, b = self.stmt(n, states)
            exc |= e
            ret |= r
            brk |= b
        return states, exc, ret, brk

    def stmt(self, n, states):
        no = set()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            return states, no, no, no
        if isinstance(n, ast.Return):
            s, e = self.simple(n, states)
            return no, e, s, no
        if isinstance(n, ast.Raise):
            s, e = self.simple(n, states)
            return no, e | s, no, no
        if isinstance(n, (ast.Break, ast.Continue)):
            return no, no, no, states
        if isinstance(n, ast.If):
            s, e = self.simple(n.test, states)
            a = self.block(n.body, s)
            b = self.block(n.orelse, s)
            return (a[0] | b[0], e | a[1] | b[1], a[2] | b[2], a[3] | b[3])
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
            s, e = self.simple(n.iter if isinstance(n, ast.For) else n.test,
                               states)
            exc, ret = e, set()
            for _ in range(4):
                a = self.block(n.body, s)
                exc, ret = exc | a[1], ret | a[2]
                new = s | a[0] | a[3]
                if new == s:
                    break
                s = new
            b = self.block(n.orelse, s)
            return b[0] | s, exc | b[1], ret | b[2], b[3]
        if isinstance(n, (ast.With, ast.AsyncWith)):
            exc = set()
            for i in n.items:
                states, e = self.simple(i.context_expr, states)
                exc |= e
            a = self.block(n.body, states)
            return a[0], exc | a[1], a[2], a[3]
        if isinstance(n, ast.Try):
            a = self.block(n.body, states)
            norm, exc, ret, brk = a[0], a[1], a[2], a[3]
            b = self.block(n.orelse, norm)
            norm, out, ret, brk = b[0], b[1], ret | b[2], brk | b[3]
            every = False
            for h in n.handlers:
                c = self.block(h.body, exc)
                norm, out = norm | c[0], out | c[1]
                ret, brk = ret | c[2], brk | c[3]
                every = every or h.type is None or isinstance(
                    h.type, ast.Name) and h.type.id in ('Exception',
                                                        'BaseException')
            if not every:
                out = out | exc
            if n.finalbody:
                res = []
                extra_exc, extra_ret, extra_brk = set(), set(), set()
                for s in (norm, out, ret, brk):
                    f = self.block(n.finalbody, s)
                    res.append(f[0])
                    extra_exc |= f[1] if not f[0] else {
                        x for x in f[1] if not x[0]}
                    extra_ret |= f[2]
                    extra_brk |= f[3]
                return (res[0], res[1] | extra_exc, res[2] | extra_ret,
                        res[3] | extra_brk)
            return norm, out, ret, brk
        s, e = self.simple(n, states)
        return s, e, no, no


def check(c):
    c.minimum = 20
    tree = load.Tree(harness.REPO)
    scan = reach.Scan(tree, (MAIN, 'run'))
    if (MAIN, 'run') not in scan.reached:
        raise harness.Anchor('run is not in the tree')
    c.saw('%d functions of %d modules reachable from run' % (
        len(scan.reached), len(scan.modules)))
    uses = {}
    for u in scan.uses:
        if u.name in CHDIR or u.name.endswith('.chdir') and \
                u.name != 'contextlib.chdir':
            uses.setdefault((u.module, u.func), []).append(u)
    for (m, q), node in sorted(scan.reached.items(), key=lambda x: x[0]):
        where = '%s:%d %s' % (tree.relpath(tree.modules[m].path),
                              getattr(node, 'lineno', 1), q)
        inst = 'working directory after %s.%s' % (m, q)
        if (m, q) not in uses:
            c.ok(inst, where)
            continue
        flow = Flow(scan, m)
        norm, exc, ret, brk = flow.block(node.body, {(False, frozenset())})
        bad = [w for w, s in (('normally', norm | ret | brk),
                              ('with an error', exc))
               if any(x[0] for x in s)]
        known = all(u.name in CHDIR and isinstance(u.node, ast.expr)
                    for u in uses[(m, q)])
        lines = ', '.join('line %d' % u.node.lineno for u in uses[(m, q)])
        c.judge(inst, True if not bad and known else
                False if bad else None, where,
                '%s changes the working directory (%s) and ends %s without '
                'returning to the previous one' % (q, lines,
                                                   ' or '.join(bad)))
