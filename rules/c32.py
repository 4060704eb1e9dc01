"""Imports and global names resolve within the package.

Name resolution over the syntax tree of every module of the program: each
import finds its module from the root of the package (not because some
sub-folder happens to be on the path), each name taken from another module
is bound there, each global name used by a function is bound in its module,
and importing any module first never meets a name that a partially imported
module has not bound yet.
"""
import ast
import builtins
import importlib
import importlib.util
import os
import symtable
import sys
from wmcheck import load, harness

LEVEL = 'proof'
ALWAYS = {'__name__', '__file__', '__doc__', '__package__', '__spec__',
          '__loader__', '__builtins__', '__path__', '__dict__',
          '__annotations__', '__cached__', '__debug__', 'WindowsError'}
SITES = ('/opt/venv/lib', '/usr/lib/python3/dist-packages')


def site_dirs():
    out = []
    for s in SITES:
        if os.path.isdir(s):
            subs = [os.path.join(s, d, 'site-packages')
                    for d in os.listdir(s) if d.startswith('python')]
            out += [d for d in subs if os.path.isdir(d)] or [s]
    return out


def stdlib_has(name, attr=None):
    """Does a module of the standard library have a name (None: not one of
    its modules)?"""
    if name.split('.')[0] not in sys.stdlib_module_names or \
            name.split('.')[0] in ('antigravity', 'this', 'idlelib'):
        return None
    try:
        m = importlib.import_module(name)
    except Exception:
        return False if attr is None else None
    if attr in (None, '*') or hasattr(m, attr):
        return True
    return importlib.util.find_spec(name + '.' + attr) is not None \
        if hasattr(m, '__path__') else False


def is_main(test):
    return '__name__' in {n.id for n in ast.walk(test)
                          if isinstance(n, ast.Name)} and any(
        isinstance(n, ast.Constant) and n.value == '__main__'
        for n in ast.walk(test))


def targets(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and
            isinstance(n.ctx, (ast.Store, ast.Del))]


class Module(object):

    def __init__(self, w, name):
        self.w, self.name = w, name
        self.src = w.tree.modules.get(name)
        self.body = self.src.tree.body if self.src else []
        self.is_package = name in w.tree.packages
        self.star = False          # some name list is unknown
        self.dynamic = False       # names set through globals(), setattr
        self.alias = {}            # local name -> module it stands for
        self.bound = set()
        self.collect(self.body, self.bound)
        looked = set()             # globals()[..] that is only read
        for n in ast.walk(self.src.tree) if self.src else []:
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Load) or isinstance(n, ast.Attribute) and \
                    n.attr in ('get', 'keys', 'items', 'values'):
                looked.add(id(n.value))
        for n in ast.walk(self.src.tree) if self.src else []:
            if isinstance(n, ast.Global):
                self.bound.update(n.names)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id in ('globals', 'exec') and \
                    id(n) not in looked:
                self.dynamic = True
        if '__getattr__' in self.bound:
            self.dynamic = True

    def absolute(self, n):
        """Module an ImportFrom names."""
        base = n.module or ''
        if n.level:
            parts = self.name.split('.')
            if not self.is_package:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        return base

    def collect(self, body, out):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == '*':
                        out |= self.w.star_names(self, self.absolute(n))
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(n, ast.If) and is_main(n.test):
                self.collect(n.orelse, out)
            else:
                for f in ('targets', 'target'):
                    for t in [getattr(n, f)] if isinstance(
                            getattr(n, f, None), ast.AST) else \
                            getattr(n, f, None) or []:
                        if not isinstance(n, ast.Delete):
                            out.update(targets(t))
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                for i in getattr(n, 'items', []):
                    if i.optional_vars is not None:
                        out.update(targets(i.optional_vars))
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(n, f, None)
                    if isinstance(b, list):
                        self.collect(b, out)
                for h in getattr(n, 'handlers', []):
                    self.collect(h.body, out)


class World(object):

    def __init__(self, tree):
        self.tree = tree
        self.names = set(tree.modules) | set(tree.packages)
        self.mods = {}
        self.roots = {n.split('.')[0] for n in self.names}
        self.short = {}
        for n in self.names:
            if '.' in n:
                self.short.setdefault(n.split('.')[-1], n)

    def mod(self, name):
        if name not in self.mods:
            self.mods[name] = None
            self.mods[name] = Module(self, name)
        return self.mods[name]

    def star_names(self, m, base):
        if base not in self.names:
            m.star = True
            return set()
        o = self.mod(base)
        if o is None:
            m.star = True
            return set()
        for n in o.body:
            if isinstance(n, ast.Assign) and '__all__' in targets(
                    ast.Tuple(n.targets, ast.Store())):
                try:
                    return set(ast.literal_eval(n.value))
                except ValueError:
                    m.star = True
        m.star = m.star or o.star
        return {x for x in o.bound if not x.startswith('_')}

    def has(self, module, attr):
        """Is `attr` available in a fully imported module (None: unknown)?"""
        if module + '.' + attr in self.names:
            return True
        o = self.mod(module)
        if o is None or o.star or o.dynamic:
            return None
        return attr in o.bound or attr in ALWAYS

    def external(self, top):
        if top in sys.stdlib_module_names or top in sys.builtin_module_names:
            return True
        for d in site_dirs():
            if any(os.path.exists(os.path.join(d, top + e))
                   for e in ('', '.py')) or any(
                    f.startswith(top + '.') and f.endswith('.so')
                    for f in os.listdir(d)):
                return True
        for f in ('requirements.txt', 'wmenv.yml', 'setup.py',
                  'pyproject.toml', 'README.rst'):
            p = os.path.join(self.tree.root, f)
            if os.path.exists(p):
                with open(p, encoding='utf-8') as fh:
                    if top.lower() in fh.read().lower():
                        return True
        return False


def guarded(tree):
    """Imports for which an ImportError is handled."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            caught = False
            for h in n.handlers:
                names = {x.id for x in ast.walk(h.type)
                         if isinstance(x, ast.Name)} if h.type else {'*'}
                if names & {'ImportError', 'ModuleNotFoundError',
                            'Exception', '*', 'BaseException'}:
                    caught = True
            if caught:
                for b in n.body + [s for h in n.handlers for s in h.body]:
                    out |= {id(x) for x in ast.walk(b)}
    return out


def imports(c, w, name):
    src = w.tree.modules[name]
    m = w.mod(name)
    ok = guarded(src.tree)
    for n in ast.walk(src.tree):
        if isinstance(n, ast.Import):
            rows = [(a.name, None) for a in n.names]
        elif isinstance(n, ast.ImportFrom):
            base = m.absolute(n)
            rows = [(base, a.name) for a in n.names]
        else:
            continue
        where = '%s:%d' % (w.tree.relpath(src.path), n.lineno)
        for base, what in rows:
            inst = 'import of %s%s in %s' % (
                base, '.' + what if what else '', name)
            if base in w.names:
                if what in (None, '*'):
                    c.judge(inst, True, where)
                    continue
                h = w.has(base, what)
                if h is None:
                    c.undecided(inst, where, 'names of %s are computed'
                                % base)
                else:
                    c.judge(inst, h, where, '%s has no name %s'
                            % (base, what))
                continue
            top = base.split('.')[0]
            if not top:
                c.judge(inst, False, where, 'is above the package')
                continue
            if top in w.roots:
                c.judge(inst, False, where, 'there is no module %s' % base)
                continue
            here = name.split('.')[:-1]
            sibling = [x for x in w.names if '.' in x and
                       x.split('.')[-1] == top]
            if w.external(top) and not (sibling and
                                        '.'.join(here + [top]) in sibling and
                                        top not in sys.stdlib_module_names):
                h = stdlib_has(base, what)
                if h is False and id(n) in ok:
                    h = True
                c.judge(inst, h is not False, where,
                        '%s has no name %s' % (base, what))
            elif id(n) in ok:
                c.judge(inst, True, where)
            elif sibling:
                c.judge(inst, False, where, 'found only when the folder of '
                        '%s is on the path' % sibling[0])
            else:
                c.judge(inst, False, where, 'no module %s is known' % base)


def module_of(w, m, table):
    """local name -> repo module, for imports in one scope."""
    out = {}
    for n in table:
        if isinstance(n, ast.Import):
            for a in n.names:
                std = stdlib_has(a.name)
                if a.asname:
                    if a.name in w.names or std:
                        out[a.asname] = a.name
                elif a.name.split('.')[0] in w.names or std:
                    out[a.name.split('.')[0]] = a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            base = m.absolute(n)
            for a in n.names:
                if base not in w.names:
                    if stdlib_has(base + '.' + a.name):
                        out[a.asname or a.name] = base + '.' + a.name
                elif base + '.' + a.name in w.names and \
                        a.name not in w.mod(base).bound:
                    out[a.asname or a.name] = base + '.' + a.name
    return out


def attributes(c, w, name):
    """Uses `module.name` of modules of the program."""
    src = w.tree.modules[name]
    m = w.mod(name)
    alias = module_of(w, m, ast.walk(src.tree))
    # names that also stand for something else somewhere are left alone
    other = set()
    for n in ast.walk(src.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            other.add(n.id)
        elif isinstance(n, ast.arg):
            other.add(n.arg)
    bad, count = [], 0
    stores = {}
    for x in w.tree.modules:
        for n in ast.walk(w.tree.modules[x].tree):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store):
                stores.setdefault(n.attr, x)
    inner = set()
    for n in ast.walk(src.tree):
        if not isinstance(n, ast.Attribute) or id(n) in inner:
            continue
        chain, x = [n.attr], n.value
        nodes = [n]
        while isinstance(x, ast.Attribute):
            chain.append(x.attr)
            nodes.append(x)
            x = x.value
        if not isinstance(x, ast.Name) or x.id not in alias or \
                x.id in other or not isinstance(n.ctx, ast.Load):
            continue
        inner |= {id(k) for k in nodes}
        base = alias[x.id]
        for attr in reversed(chain):
            if base not in w.names:
                count += 1
                h = stdlib_has(base, attr)
                if h is False and attr not in stores:
                    bad.append('%s.%s (line %d)' % (base, attr, n.lineno))
                break
            if base + '.' + attr in w.names and \
                    attr not in w.mod(base).bound:
                base = base + '.' + attr
                continue
            count += 1
            h = w.has(base, attr)
            if h is False and attr not in stores:
                bad.append('%s.%s (line %d)' % (base, attr, n.lineno))
            break
    if count:
        c.judge('names of other modules used in %s' % name, not bad,
                w.tree.relpath(src.path), ', '.join(bad) + ' not defined',
                '%d uses' % count)


def globals_used(c, w, name):
    src = w.tree.modules[name]
    m = w.mod(name)
    if not src.text.strip():
        return
    where = w.tree.relpath(src.path)
    if m.star or m.dynamic:
        c.undecided('global names of ' + name, where, 'names are computed')
        return
    bad, count = [], 0
    lines = {}
    for n in ast.walk(src.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, n.lineno)
    quiet = set()              # a NameError that is handled
    for n in ast.walk(src.tree):
        if isinstance(n, ast.Try) and any(
                h.type is not None and 'NameError' in ast.dump(h.type)
                for h in n.handlers):
            quiet |= {x.id for b in n.body for x in ast.walk(b)
                      if isinstance(x, ast.Name)}

    mainonly = set()
    for n in src.tree.body:
        if isinstance(n, ast.If) and is_main(n.test):
            m.collect(n.body, mainonly)

    def scope(t, top):
        nonlocal count
        for s in t.get_symbols():
            nm = s.get_name()
            if not s.is_referenced():
                continue
            if top or s.is_global() or (t.get_type() == 'class' and
                                        not s.is_local()):
                count += 1
                if nm in m.bound or hasattr(builtins, nm) or \
                        nm in ALWAYS or nm in quiet or (
                            top and nm in mainonly):
                    continue
                if nm in mainonly:
                    bad.append('%s (line %s) is set only when the file is '
                               'run as a program' % (nm, lines.get(nm)))
                else:
                    bad.append('%s (line %s)' % (nm, lines.get(nm)))
        for k in t.get_children():
            scope(k, False)
    scope(symtable.symtable(src.text, src.path, 'exec'), True)
    c.judge('global names of ' + name, not bad, where,
            ', '.join(bad) + ' not defined', '%d names' % count)


class Partial(Exception):
    pass


def order(c, w, start):
    """Execute the top-level statements symbolically, `start` first."""
    done, bound = set(), {}
    bad = []
    stack = []

    def load_module(name):
        parts = name.split('.')
        for k in range(1, len(parts) + 1):
            one = '.'.join(parts[:k])
            if one in bound or one not in w.names:
                continue
            bound[one] = set()
            stack.append(one)
            m = w.mod(one)
            if m.src is not None:
                run(one, m, m.body)
            stack.pop()
            done.add(one)

    def need(one, m, base, attr, node):
        if base in done or m.star or w.mod(base).star or \
                w.mod(base).dynamic:
            return
        if base in bound and attr not in bound[base] and \
                base + '.' + attr not in bound and attr not in ALWAYS:
            if attr in w.mod(base).bound:
                bad.append('%s line %d needs %s.%s before it is defined '
                           '(imports: %s)' % (one, node.lineno, base, attr,
                                              ' -> '.join(stack)))

    def uses(one, m, node):
        """Names evaluated immediately by an expression or statement."""
        work = [node]
        while work:
            n = work.pop()
            if isinstance(n, ast.Lambda):
                work += n.args.defaults
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                work += n.decorator_list + n.args.defaults + [
                    d for d in n.args.kw_defaults if d is not None]
                continue
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name):
                base = alias.get(one, {}).get(n.value.id)
                if base in w.names:
                    need(one, m, base, n.attr, n)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in m.bound and n.id not in bound[one] and \
                        n.id not in local.get(id(node), ()) and \
                        not hasattr(builtins, n.id):
                    bad.append('%s line %d uses %s before it is set'
                               % (one, n.lineno, n.id))
            work += list(ast.iter_child_nodes(n))

    alias = {w_: module_of(w, w.mod(w_), w.mod(w_).body)
             for w_ in w.tree.modules}
    local = {}

    def run(one, m, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    load_module(a.name)
                    bound[one].add(a.asname or a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = m.absolute(n)
                load_module(base)
                for a in n.names:
                    if a.name == '*':
                        bound[one] |= {x for x in bound.get(base, ())}
                        continue
                    if base in w.names:
                        if base + '.' + a.name in w.names and \
                                a.name not in w.mod(base).bound:
                            load_module(base + '.' + a.name)
                        else:
                            need(one, m, base, a.name, n)
                    bound[one].add(a.asname or a.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                uses(one, m, n)
                bound[one].add(n.name)
            elif isinstance(n, ast.ClassDef):
                inner = {x for b in n.body for x in (
                    [b.name] if hasattr(b, 'name') else
                    targets(b))}
                for b in n.bases + n.decorator_list + n.body:
                    local[id(b)] = inner
                    uses(one, m, b)
                bound[one].add(n.name)
            elif isinstance(n, ast.If) and is_main(n.test):
                run(one, m, n.orelse)
            else:
                mine = {x.id for x in ast.walk(n) if isinstance(
                    x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for f in ('body', 'orelse', 'finalbody', 'handlers'):
                    if isinstance(getattr(n, f, None), list):
                        break
                else:
                    comp = set()
                    for x in ast.walk(n):
                        if isinstance(x, ast.comprehension):
                            comp.update(targets(x.target))
                        elif isinstance(x, ast.NamedExpr):
                            comp.add(x.target.id)
                    local[id(n)] = comp
                    uses(one, m, n)
                    bound[one] |= mine
                    continue
                bound[one] |= mine       # loops, with, as
                for f in ('test', 'iter', 'items'):
                    x = getattr(n, f, None)
                    for y in x if isinstance(x, list) else [x]:
                        if y is not None:
                            uses(one, m, y)
                for f in ('body',):
                    run(one, m, getattr(n, f))
                for h in getattr(n, 'handlers', []):
                    run(one, m, h.body)
                run(one, m, getattr(n, 'orelse', []))
                run(one, m, getattr(n, 'finalbody', []))
    load_module(start)
    c.judge('importing %s first' % start, not bad,
            w.tree.relpath(w.tree.modules[start].path),
            '; '.join(bad[:3]), '%d modules imported' % len(done))


def check(c):
    c.minimum = 100
    tree = load.Tree(harness.REPO)
    w = World(tree)
    c.saw('%d modules: %s' % (len(tree.modules),
                              ', '.join(sorted(tree.modules))))
    for name in sorted(tree.modules):
        w.mod(name)
    for name in sorted(tree.modules):
        imports(c, w, name)
        attributes(c, w, name)
        globals_used(c, w, name)
        if tree.modules[name].text.strip():
            order(c, w, name)
