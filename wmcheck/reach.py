"""Names used in the program: which external functions each reachable
function refers to, with import aliases resolved (syntax trees only)."""
import ast


class Use(object):

    def __init__(self, module, func, node, name, called):
        self.module, self.func, self.node = module, func, node
        self.name, self.called = name, called

    def key(self):
        return (self.module, self.node.lineno, self.node.col_offset)


class Scan(object):

    def __init__(self, tree, entry):
        """tree: load.Tree; entry: (module, function)."""
        self.tree = tree
        self.uses = []
        self.defs = {}          # simple name -> [(module, qualname, node)]
        self.top = {}           # module -> [statements outside functions]
        self.alias = {}
        self.modules = self.closure(entry[0])
        for m in self.modules:
            self.index(m)
        self.reached = self.walk(entry)

    # ---------------------------------------------------------- modules
    def imports(self, m, body=None):
        src = self.tree.modules[m]
        out = []
        for n in ast.walk(src.tree if body is None else body):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out.append((n, a.asname or a.name.split('.')[0],
                                a.name if a.asname else
                                a.name.split('.')[0], a.name))
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = m.split('.')[:-n.level]
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    out.append((n, a.asname or a.name, base + '.' + a.name,
                                base))
        return out

    def closure(self, start):
        seen, work = [], [start]
        while work:
            m = work.pop()
            if m in seen or m not in self.tree.modules:
                continue
            seen.append(m)
            for n, local, full, mod in self.imports(m):
                for x in (mod, full):
                    parts = x.split('.')
                    for k in range(1, len(parts) + 1):
                        work.append('.'.join(parts[:k]))
        return seen

    def index(self, m):
        src = self.tree.modules[m]
        self.alias[m] = {local: full for n, local, full, mod in
                         self.imports(m)}
        # plain aliases: cd = os.chdir
        for n in ast.walk(src.tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                d = self.dotted(m, n.value)
                if d and '.' in d:
                    self.alias[m].setdefault(n.targets[0].id, d)

        def defs(body, prefix):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.defs.setdefault(n.name, []).append(
                        (m, prefix + n.name, n))
                    defs(n.body, prefix + n.name + '.')
                elif isinstance(n, ast.ClassDef):
                    defs(n.body, prefix + n.name + '.')
                elif hasattr(n, 'body') or hasattr(n, 'orelse'):
                    for f in ('body', 'orelse', 'finalbody'):
                        defs(getattr(n, f, []) or [], prefix)
                    for h in getattr(n, 'handlers', []):
                        defs(h.body, prefix)
        defs(src.tree.body, '')

    def dotted(self, m, node):
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            if isinstance(node, ast.Call) and parts and \
                    isinstance(node.func, ast.Name) and \
                    node.func.id == '__import__' and node.args and \
                    isinstance(node.args[0], ast.Constant):
                return '.'.join([str(node.args[0].value)] + parts[::-1])
            return None
        base = self.alias.get(m, {}).get(node.id, node.id)
        return '.'.join([base] + parts[::-1])

    # ------------------------------------------------------------ reach
    def own(self, node):
        """Nodes of a function or module without nested definitions."""
        work = list(ast.iter_child_nodes(node))
        while work:
            n = work.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda)):
                for d in getattr(n, 'decorator_list', []):
                    work.append(d)
                if isinstance(n, ast.Lambda):
                    work.append(n.body)
                continue
            work.extend(ast.iter_child_nodes(n))

    def walk(self, entry):
        reached, work = {}, []
        for m in self.modules:
            work.append((m, '<module>', self.tree.modules[m].tree))
        for d in self.defs.get(entry[1].split('.')[-1], []):
            if d[0] == entry[0]:
                work.append(d)
        names = set()
        while work:
            m, q, node = work.pop()
            if (m, q) in reached:
                continue
            reached[(m, q)] = node
            main = set()
            if q == '<module>':
                main = self.main_block(node)
            for n in self.own(node):
                if n in main:
                    continue
                nm = None
                if isinstance(n, ast.Attribute):
                    nm = n.attr
                elif isinstance(n, ast.Name):
                    nm = n.id
                elif isinstance(n, ast.Constant) and \
                        isinstance(n.value, str) and n.value.isidentifier():
                    nm = n.value            # getattr(x, 'name')
                if nm is None:
                    continue
                if not isinstance(n, ast.Constant):
                    d = self.dotted(m, n)
                    self.uses.append(Use(m, q, n, d or '.' + nm, None))
                cand = {nm}
                if isinstance(n, ast.Name):
                    cand.add(self.alias.get(m, {}).get(nm, nm)
                             .split('.')[-1])
                for x in cand:
                    if x not in names:
                        names.add(x)
                        work.extend(self.defs.get(x, []))
                        # a class: its constructor and operators
        # operators and constructors of every class are reachable
        for nm, ds in self.defs.items():
            if nm.startswith('__') and nm.endswith('__'):
                for d in ds:
                    if (d[0], d[1]) not in reached:
                        work.append(d)
        while work:
            m, q, node = work.pop()
            if (m, q) in reached:
                continue
            reached[(m, q)] = node
            for n in self.own(node):
                if isinstance(n, (ast.Attribute, ast.Name)):
                    nm = n.attr if isinstance(n, ast.Attribute) else n.id
                    self.uses.append(Use(m, q, n, self.dotted(m, n) or
                                         '.' + nm, None))
                    work.extend(self.defs.get(nm, []))
        return reached

    def main_block(self, tree):
        """Nodes under `if __name__ == '__main__'` (another program)."""
        out = set()
        for n in tree.body:
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) \
                    and isinstance(n.test.left, ast.Name) and \
                    n.test.left.id == '__name__':
                out.update(ast.walk(n))
        return out


def import_calls(scan, m):
    """(dotted name, line) of calls evaluated when module m is imported."""
    out = []

    def look(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                d = scan.dotted(m, x.func)
                if d:
                    out.append((d, x.lineno))

    def top(body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.args.defaults + n.args.kw_defaults + \
                        n.decorator_list:
                    if d is not None:
                        look(d)
            elif isinstance(n, ast.ClassDef):
                top(n.body)
            elif isinstance(n, ast.If) and '__name__' in ast.dump(n.test):
                continue
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For,
                                ast.While)):
                for f in ('test', 'iter'):
                    if hasattr(n, f):
                        look(getattr(n, f))
                for i in getattr(n, 'items', []):
                    look(i.context_expr)
                for f in ('body', 'orelse', 'finalbody'):
                    top(getattr(n, f, []))
                for h in getattr(n, 'handlers', []):
                    top(h.body)
            else:
                look(n)
    top(scan.tree.modules[m].tree.body)
    return out
