"""Names of the multiplier files: what the three steps write for a tile is
what the combination opens for it, in folders the program creates.

`multipliers_calculate` is summarised for an arbitrary tile; with the file
names it passes on, `terrain`, `shield` and `topomult` are summarised and the
names they save are collected (one term per call).  They have to be the 24
names <folder>/<part>/<tile>_<m?>_<direction>.nc, each saved once, and
`Converter.process_tile` has to open exactly those.
"""
from wmcheck import terms as T, harness
from wmcheck.check import no_raise
from wmcheck.values import Tup, Cls
from wmcheck.harness import Anchor
from .common import MAIN, TERRAIN, SHIELD, TOPO, DIRECTIONS, sym, extent, \
    writers, topo_opaque
from .convert import CONVERT, PARTS
from .tiles import Tiles

LEVEL = 'proof'
STEPS = {'terrain': (TERRAIN, 'terrain', 'terrain'),
         'shield': (SHIELD, 'shield', 'shielding'),
         'topomult': (TOPO, 'topomult', 'topographic')}


def wanted(out, tile):
    return {p: {d: T.pjoin(out, T.string(p), T.cat(tile, T.string(
        '_%s_%s.nc' % (m, d)))) for d in DIRECTIONS} for p, m in PARTS}


def step(c, which, args, want):
    mod, fn, part = STEPS[which]
    S = c.session('tile')
    if which == 'shield':
        S.opaque(SHIELD, 'get_slope_aspect', result=('tuple', 'value',
                                                     'value'))
        S.opaque(SHIELD, 'get_shielding_table')
        S.opaque(SHIELD, 'combine', result='array', like='ms_orig_array')
    elif which == 'terrain':
        S.opaque(TERRAIN, 'convo', result='array', like='data')
        S.opaque(TERRAIN, 'terrain_class2mz_orig', result='array',
                 like='data')
        S.opaque(TERRAIN, 'get_terrain_table')
    else:
        topo_opaque(S)
    writers(S)
    f = S.func(mod, fn)
    where = S.where(f)
    c.saw(where)
    run = S.call(f, args)
    left = dict((n, d) for d, n in want[part].items())
    for e in run.events('repo:save_multiplier'):
        name = harness.strip(e.terms[4])
        d = left.pop(name, None)
        if d is None:
            c.record('name saved by ' + fn, status(S, name), S.at(e),
                     'saves %s%s' % (T.show(name, 7), ' again' if name in
                                     want[part].values() else ''))
        else:
            c.ok('%s file of direction %s' % (part, d), S.at(e),
                 T.show(name, 8))
    for n, d in left.items():
        c.record('%s file of direction %s' % (part, d),
                 'undecided' if S.ip.notes or not run.events(
                     'repo:save_multiplier') else 'violation', where,
                 'nothing is saved as ' + T.show(n, 7))


def status(S, name):
    """A name of known text is decided; any other is not."""
    known = not S.ip.notes and not T.atoms(
        name, lambda q: q.op in ('havoc', 'eff', 'call', 'strop', 'tostr',
                                 'split', 'ite', 'bv', 'item'))
    return 'violation' if known else 'undecided'


def reader(c, want, out, tile):
    S = c.session('combined')
    K = S.ip.base.heap[S.module(CONVERT).frame].vars.get('Converter')
    if not isinstance(K, Cls):
        raise Anchor('class Converter is not in the tree')
    made = S.call(K, [sym('tiles', 'any'), out])
    f = S.func(CONVERT, 'Converter.process_tile')
    where = S.where(f)
    c.saw(where)
    run = S.call(f, [made.value, tile], st=made.st)
    names = {n: (p, d) for p in want for d, n in want[p].items()}
    seen = set()
    for e in run.trace:
        if e.name not in ('gdal.Open', 'gdal.OpenEx', 'netCDF4.Dataset'):
            continue
        name = S.ip.term(e.args[0], run.st) if e.terms is None else \
            e.terms[0]
        name = harness.strip(name)
        seen.add(name)
        if name not in names:
            c.record('name opened by process_tile', status(S, name),
                     S.at(e), 'opens %s, which no step writes'
                     % T.show(name, 7))
    for n, (p, d) in sorted(names.items(), key=lambda x: x[1]):
        c.judge('%s file of direction %s is read' % (p, d),
                True if n in seen else None if S.ip.notes or not seen
                else False, where, 'does not open ' + T.show(n, 7))


def check(c):
    c.minimum = 48
    c.assume('names of tiles hold no folder separator')

    def go():
        t = Tiles(c, (MAIN, 'reproject_dataset'))
        S = t.S
        tile = sym('name', 'str', noslash=True)
        info = Tup([tile, extent(), extent()])
        w, a = t.method('cut_dem', info)
        dem = S.term(a)
        w, a = t.method('multipliers_calculate', dem, info)
        want = wanted(t.out, tile)
        for e in a.trace:
            if e.name[5:] in STEPS and e.name.startswith('repo:'):
                which = e.name[5:]
                args = list(e.terms[:-1]) + [extent()]
                c.attempt('names saved by ' + which, which,
                          lambda: step(c, which, args, want))
        c.attempt('names read', 'Converter.process_tile',
                  lambda: reader(c, want, t.out, tile))
        folders(c)
    c.attempt('names', MAIN, go)


def folders(c):
    """Folders made before the tiles are processed."""
    S = c.session('combined')
    f = S.func(MAIN, 'do_output_directory_creation')
    c.saw(S.where(f))
    out = sym('out', 'str')
    a = S.call(f, [out])
    made = set()
    for nm in ('os.makedirs', 'os.mkdir'):
        for e in a.events(nm):
            made.add(harness.strip(e.terms[0]))
    for p in ['terrain', 'shielding', 'topographic', 'M3', 'M3_max']:
        d = T.pjoin(out, T.string(p))
        c.judge('folder ' + p, True if d in made else
                None if S.ip.notes or not made else False, S.where(f),
                'is not created')
