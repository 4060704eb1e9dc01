"""Source loading and module-name resolution for the analysed tree."""

import ast
import os


class Source(object):
    """One parsed module of the analysed tree."""

    def __init__(self, name, path, text):
        self.name, self.path, self.text = name, path, text
        self.tree = ast.parse(text, path)


class Tree(object):
    """All non-test Python sources below `root`."""

    SKIP = {'tests', '.git', '__pycache__', 'docs'}

    def __init__(self, root):
        self.root = os.path.abspath(root)
        self.modules = {}
        self.packages = set()
        for d, dirs, files in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if x not in self.SKIP and
                             not x.startswith('.'))
            rel = os.path.relpath(d, self.root)
            prefix = '' if rel == '.' else rel.replace(os.sep, '.') + '.'
            if prefix:
                self.packages.add(prefix[:-1])
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                name = prefix + f[:-3]
                if f == '__init__.py':
                    name = prefix[:-1]
                    if not name:
                        continue
                with open(path, encoding='utf-8') as fh:
                    text = fh.read()
                self.modules[name] = Source(name, path, text)

    def add(self, name, path):
        with open(path, encoding='utf-8') as fh:
            self.modules[name] = Source(name, path, fh.read())

    def resolve(self, name):
        """Module name of an import, or None when it is external.  A bare
        name is looked up at the root only: that is what
        `python all_multipliers.py` puts on the path."""
        if name in self.modules:
            return name
        if name in self.packages:
            return name
        return None

    def relpath(self, path):
        return os.path.relpath(path, self.root)
