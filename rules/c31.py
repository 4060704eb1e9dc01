"""Settings come from the configuration file named on the command line.

In the summary of the main program (for several ranks): when a file is named,
it is read before the first setting is asked for, whatever was read before;
a file that is not there or cannot be read raises; no other file is read
afterwards and nothing sets a value.  No setting is asked for while the
modules are imported.
"""
from wmcheck import terms as T, boolean, load, reach, harness
from wmcheck.terms import mk, NONE
from .common import MAIN
from .effects import strip, terms_of
from .program import Program

LEVEL = 'proof'
GETS = ('config.get', 'config.getboolean', 'config.getint',
        'config.getfloat', 'config.items', 'config.options',
        'config.has_option', 'config.sections')
READS = ('.read', '.read_file', '.readfp')
SETS = ('.set', '.read_string', '.read_dict', '.remove_option',
        '.remove_section', '.clear', '.update')
EXISTS = ('os.path.exists', 'os.path.isfile')


def is_config(t):
    return t.op == 'inst' or 'configparser' in repr(t)


def status(cond, S, bad_notes):
    try:
        r = boolean.satisfy(cond, S.base_facts())
    except boolean.Budget:
        return None, 'too many conditions'
    if r is None:
        return True, ''
    vague = T.atoms(cond, lambda q: q.op in ('havoc', 'undef'))
    return (None if vague or bad_notes else False), boolean.show(r, 9)


def run_rules(c, size, rank):
    p = Program(c, size, rank)
    S, run = p.S, p.run
    tag = ' (rank %d of %d)' % (rank, size)
    ev = list(run.trace)
    options = {}
    for e in ev:
        if e.name == '.add_argument':
            ts = terms_of(S, run, e)
            names = [t.args[0] for t in ts[1:] if t.op == 'str']
            dest = [t.args[1].args[0] for t in ts if t.op == 'kw' and
                    t.args[0] == 'dest']
            if not dest:
                longs = [n for n in names if n.startswith('--')]
                dest = [(longs or names)[0].lstrip('-').replace('-', '_')] \
                    if names else []
            for n in names:
                options[n] = dest[0]
    dest = options.get('-c')
    if dest is None:
        c.judge('option of the configuration file' + tag,
                None if S.ip.notes or not options else False, p.where,
                'no option -c is defined')
        return
    first = [k for k, e in enumerate(ev) if e.name in GETS]
    files = set()
    reads = []
    for k, e in enumerate(ev):
        ts = terms_of(S, run, e)
        if e.name in READS and ts and is_config(ts[0]) and len(ts) > 1:
            what = ts[1]
            if what.op in ('tuple', 'list'):
                reads += [(k, e, strip(q)) for q in what.args]
            elif what.op in ('eff', 'call') and what.args[0] in (
                    'builtins.open', 'open', 'io.open', 'codecs.open'):
                reads.append((k, e, strip(what.args[
                    2 if what.op == 'eff' else 1])))
            else:
                reads.append((k, e, strip(what)))
        for t in ts:
            files |= {q for q in T.atoms(t, lambda q: q.op == 'attr' and
                                         q.args[1] == dest)}
        for q in T.atoms(T.tand(*e.pc), lambda q: q.op == 'attr' and
                         q.args[1] == dest):
            files.add(q)
    files = [f for f in files if 'parse_args' in repr(f)]
    if len({strip(f) for f in files}) != 1:
        c.judge('file of the command line' + tag,
                None if S.ip.notes or len(files) > 1 else False, p.where,
                'the option %s is not used' % dest)
        return
    arg = strip(files[0])
    given = T.tand(*[T.truth(f) for f in files])

    def fix(t, there):
        m = {a: (T.TRUE if there else T.FALSE) for a in T.atoms(
            t, lambda q: q.op == 'call' and q.args[0] in EXISTS and
            strip(q.args[1]) is arg)}
        for a in T.atoms(t, lambda q: q.op in ('is', 'eq') and
                         NONE in q.args and
                arg in [strip(x) for x in q.args]):
            m[a] = T.FALSE
        return T.subst(t, m) if m else t
    stops = T.tor(*[T.tand(*e.pc) for e in ev if e.name in (
        '$raise', 'sys.exit') and not e.loops])
    k0 = first[0] if first else len(ev)
    mine = [(k, e) for k, e, path in reads if path is arg and not e.loops]
    early = T.tor(*[T.tand(*e.pc) for k, e in mine if k < k0])
    s, why = status(T.tand(given, fix(T.tnot(early), True),
                           fix(T.tnot(stops), True)), S, S.ip.notes)
    c.judge('the file named is read before the first setting' + tag, s,
            p.where, 'the file is not read first when ' + why)
    s, why = status(T.tand(given, fix(T.tnot(stops), False)), S, S.ip.notes)
    c.judge('a file that is not there is refused' + tag, s, p.where,
            'the run goes on when ' + why)
    for k, e in mine[:1]:
        res = strip(S.ip.term(e.result, run.st)) \
            if e.result is not None else None
        m = {}
        for a in T.atoms(stops, lambda q: res is not None and (
                q.op == 'truth' and strip(q.args[0]) is res or q is res)):
            m[a] = T.FALSE
        for a in T.atoms(stops, lambda q: res is not None and
                         q.op == 'len' and strip(q.args[0]) is res):
            m[a] = T.num(0)
        left = T.subst(stops, m) if m else stops
        if e.name == '.read':
            s, why = status(T.tand(given, fix(T.tand(*e.pc), True),
                                   T.tnot(fix(left, True))), S, S.ip.notes)
        else:
            s, why = True, ''
        c.judge('a file that cannot be read is refused' + tag, s, S.at(e),
                'the run goes on when nothing was read and ' + why)
    others = []
    for k, e, path in reads:
        if path is arg:
            continue
        s, why = status(T.tand(given, fix(T.tand(*e.pc), True)), S,
                        S.ip.notes)
        others.append((s, '%s reads %s as well when %s' % (
            S.at(e), T.show(path, 7), why)))
    for e in ev:
        if e.name in SETS:
            ts = terms_of(S, run, e)
            if ts and is_config(ts[0]):
                others.append((False, '%s changes settings (%s)' % (
                    S.at(e), e.name)))
    bad = [x for x in others if x[0] is not True]
    c.judge('nothing else is read or set' + tag,
            True if not bad else False if any(
                x[0] is False for x in bad) else None, p.where,
            '; '.join(x[1] for x in bad))


def import_time(c):
    """Settings read while modules are imported miss the file named."""
    tree = load.Tree(harness.REPO)
    scan = reach.Scan(tree, (MAIN, 'run'))
    c.saw('%d modules searched for settings read at import'
          % len(scan.modules))
    for m in sorted(scan.modules):
        src = tree.modules[m]
        if not src.text.strip():
            continue
        bad = ['%s line %d' % x for x in reach.import_calls(scan, m)
               if x[0].startswith('utilities.config.configparser.') and
               x[0].split('.')[-1].startswith(('get', 'items', 'options'))]
        c.judge('settings read when %s is imported' % m, not bad,
                tree.relpath(src.path), ', '.join(bad) + ' is evaluated '
                'before the file of the command line is read')


def check(c):
    c.minimum = 12
    c.assume('ConfigParser.read replaces every value the file gives and '
             'returns the files it could read')
    for size, rank in ((1, 0), (3, 0), (3, 2)):
        c.attempt('configuration of rank %d of %d' % (rank, size), MAIN,
                  lambda: run_rules(c, size, rank))
    c.attempt('settings at import', MAIN, lambda: import_time(c))
