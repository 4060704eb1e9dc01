"""Temporary rasters of a tile are removed, and not too early.

The effects on files of cutting and processing one tile (see `effects.py`)
are put in program order.  Every raster created on disk that is not a
multiplier file has to be removed under every condition under which it was
created and the processing ends, and no removal may come before an opening of
that file it shares a run with.
"""
from wmcheck import terms as T, boolean
from .effects import Tile, strip

LEVEL = 'proof'


def existing(t, path, value=True):
    """Condition t once the file is known to be there."""
    m = {}
    for a in T.atoms(t, lambda q: q.op == 'call' and q.args[0] in (
            'os.path.exists', 'os.path.isfile') and
            strip(q.args[1]) is path):
        m[a] = T.TRUE if value else T.FALSE
    return T.subst(t, m) if m else t


def sat(t, facts):
    try:
        return boolean.satisfy(t, facts)
    except boolean.Budget:
        return 'budget'


def check(c):
    c.minimum = 4
    c.assume('files removed under a name stay accessible through data sets '
             'opened before (POSIX)')

    def go():
        t = Tile(c)
        facts = t.t.S.base_facts()
        made = {}
        for k, i in enumerate(t.items):
            if i.kind == 'write' and i.e.name in ('.Create', '.CreateCopy',
                                                  'gdal.Translate',
                                                  'gdal.Warp'):
                made.setdefault(i.path, []).append((k, i))
        stop = T.tor(*[T.tand(*[p]) for p, ls, S, e in t.aborts if not ls])
        maybe = [x for x in t.aborts if x[1]]
        for path, ws in made.items():
            name = T.show(path, 7) if path is not None else '?'
            k0, w = ws[0]
            if path is None:
                c.undecided('temporary raster', w.at(), 'name not known')
                continue
            rem = [(k, i) for k, i in enumerate(t.items)
                   if i.kind == 'delete' and i.path is path]
            sure = [i for k, i in rem if not i.loops and k > k0]
            gone = T.tor(*[i.pc for i in sure])
            cond = T.tand(T.tor(*[x.pc for _, x in ws]), T.tnot(stop),
                          T.tnot(gone))
            cond = existing(cond, path)
            r = sat(cond, facts)
            other = [i for k, i in enumerate(t.items) if i.kind == 'delete'
                     and k > k0 and (i.path is None or i.loops)]
            c.judge('%s is removed' % name,
                    True if r is None else
                    None if r == 'budget' or unsure(gone) or
                    [i for i in other if i.path is path or i.path is None]
                    else False, w.at(),
                    '%s is created in %s and not removed when %s' % (
                        name, w.at(), r if isinstance(r, str) else
                        boolean.show(r or [])))
            early = []
            for k, d in rem:
                for q in range(k + 1, len(t.items)):
                    i = t.items[q]
                    if i.kind != 'open' or i.path is not path:
                        continue
                    r = sat(existing(T.tand(d.pc, i.pc), path), facts)
                    if r is not None:
                        early.append((d, i, r))
            early = early[:1]
            again = [x for x in early if x[2] == 'budget' or x[0].loops]
            c.judge('%s is there when it is opened' % name,
                    True if not early else None if again else False,
                    early[0][0].at() if early else w.at(),
                    'removed in %s, opened afterwards in %s' % (
                        early[0][0].at(), early[0][1].at())
                    if early else '')
    c.attempt('rasters of a tile', 'multipliers_calculate', go)


def unsure(t):
    """The condition of a removal is not known in full."""
    return bool(T.atoms(t, lambda q: q.op in ('havoc', 'undef', 'unbound')))
