"""A multiplier file that cannot be opened counts as one, for its direction
only.

`Converter.process_tile` is summarised for every combination of files that
can and cannot be opened, as the first tile and after another one, and
compared band by band with `specs/combined.py:product`.
"""
import ast
from wmcheck import harness, load, reach
from .convert import CONVERT, Tile

LEVEL = 'proof'


def exceptions(c):
    """Without gdal.UseExceptions a file that cannot be opened is no error
    but None, and the stand-in is never made."""
    tree = load.Tree(harness.REPO)
    src = tree.modules[CONVERT]
    on, off, tests = [], [], []
    for m, s in tree.modules.items():
        for n in ast.walk(s.tree):
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) \
                    else n.func.id if isinstance(n.func, ast.Name) else ''
                if name == 'UseExceptions':
                    on.append((m, n.lineno))
                elif name == 'DontUseExceptions':
                    off.append((m, n.lineno))
    for n in ast.walk(src.tree):
        if isinstance(n, ast.Compare) and any(
                isinstance(x, ast.Constant) and x.value is None
                for x in [n.left] + n.comparators) or \
                isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            tests.append(n.lineno)
    handlers = [n for n in ast.walk(src.tree)
                if isinstance(n, ast.ExceptHandler)]
    scan = reach.Scan(tree, ('all_multipliers', 'run'))
    early = [x for x in reach.import_calls(scan, CONVERT)
             if x[0].endswith('.UseExceptions')]
    inst = 'a file that cannot be opened is an error'
    where = tree.relpath(src.path)
    if early and not off:
        c.ok(inst, where)
    elif on or off or tests or not handlers:
        c.undecided(inst, where, 'when it is depends on the order of calls')
    else:
        c.judge(inst, False, where, 'gdal.UseExceptions is not called: '
                'gdal.Open returns None and line %d is never reached' %
                min(n.lineno for n in handlers))


def check(c):
    c.minimum = 8
    c.assume('the shielding file of the north direction, which gives the '
             'grid, is there')

    def go(again=False):
        t = Tile(c, 'process_tile', 'product', again)
        late = ', after another tile,' if again else ''
        t.same_calls('product with missing files' + late, '.WriteArray',
                     False)
        t.sizes(late)
    c.attempt('errors of gdal', CONVERT, lambda: exceptions(c))
    c.attempt('product with missing files', 'Converter.process_tile', go)
    c.attempt('product with missing files, after another tile',
              'Converter.process_tile', lambda: go(True))
