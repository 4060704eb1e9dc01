"""One check: the obligations of a property, what was decided, the report."""

import importlib
import json
import os
import signal
import sys
import time
import traceback

from . import harness, terms as T, witness
from .terms import mk, NONE
from .harness import Anchor, decide, short, HERE

KNOWN = os.path.join(HERE, 'known-findings.txt')


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


class Check(object):

    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obligations = []
        self.analysed = []
        self.problems = []
        self.minimum = 1
        self.assumptions = []
        self.rules = []
        self.sessions = []
        witness.SECONDS = 12 if tier == 'quick' else 90
        self.limit = 120 if tier == 'quick' else 400
        self.until = time.time() + (600 if tier == 'quick' else 3000)

    # -- building blocks for the rules

    def session(self, *specs):
        S = harness.Session(specs)
        S.M.step_errors = getattr(self, 'step_errors', None)
        self.sessions.append(S)
        self.saw('%d modules of the tree loaded' % len(S.repo_modules))
        return S

    def errors(self):
        """What was analysed does not end with an error no input explains:
        names and attributes that are not there, items beyond the end, calls
        without their arguments."""
        seen = set()
        for S in self.sessions:
            for e in S.failed:
                kind, what, cond = e.args
                if e.module not in S.repo_modules:
                    continue
                key = (S.at(e), what.args[0])
                if key in seen:
                    continue
                c = harness.strip(T.tand(*(list(e.pc) + [cond])))
                if c is not T.TRUE:
                    if any(x[0] in ('havoc', 'unbound') for x in
                           witness.names(c)):
                        continue
                    w = witness.search(c, T.FALSE, S.base_facts(), None, 200)
                    if w is None:
                        continue
                    how = ' (%r)' % w
                else:
                    how = ''
                seen.add(key)
                self.violation('runs without an error', key[0], '%s: %s%s' % (
                    kind.args[0], what.args[0], how))

    def saw(self, what):
        if what not in self.analysed:
            self.analysed.append(what)

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def record(self, instance, status, where='', detail='', rule=''):
        self.obligations.append(dict(instance=instance, status=status,
                                     where=where, detail=detail,
                                     rule=rule))
        return status

    def ok(self, instance, where='', detail=''):
        return self.record(instance, 'ok', where, detail)

    def violation(self, instance, where, detail):
        return self.record(instance, 'violation', where, detail)

    def undecided(self, instance, where, detail):
        return self.record(instance, 'undecided', where, detail)

    def judge(self, instance, cond, where, detail='', good=''):
        """cond True: holds, False: violated, None: not decided."""
        st = {True: 'ok', False: 'violation', None: 'undecided'}[cond]
        return self.record(instance, st, where,
                           detail if st != 'ok' else good)

    def equal(self, instance, where, a, b, facts=None, **kw):
        """Obligation: the tree's term a equals the specified term b."""
        v = decide(a, b, facts, **kw)
        return self.record(instance, v.status, where, v.detail or
                           '%d regions' % v.regions)

    def attempt(self, instance, where, f, limit=None):
        """Run f() (which records obligations); whatever the engine cannot
        analyse leaves the instance undecided."""
        n = len(self.obligations)
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(max(2, int(min(limit or self.limit,
                                    self.until - time.time()))))
        try:
            f()
        except Anchor:
            raise
        except TimeUp:
            self.undecided(instance, where, 'time limit of the analysis')
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.undecided(instance, where, 'the analysis does not cover '
                           'this code: %s: %s (%s:%d)' % (
                               type(e).__name__, str(e)[:200],
                               os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('WMCHECK_DEBUG'):
                traceback.print_exc()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return len(self.obligations) - n

    def compare(self, S, instance, repo, spec, args, spec_args=None,
                kwargs=None, facts=None, value=None, **kw):
        """The tree's function equals the specified one for these
        arguments.  repo: (module, name); spec: (module, name)."""
        f = S.func(*repo)
        where = S.where(f)
        self.saw(where)

        def go():
            a = S.call(f, args, kwargs)
            b = S.call(S.spec(*spec), args if spec_args is None
                       else spec_args)
            fs = facts or S.base_facts()
            ta, tb = S.term(a), S.term(b)
            if value:
                ta, tb = value(ta), value(tb)
            self.equal(instance, where, ta, tb, fs, **kw)
        return self.attempt(instance, where, go)


    # -- recorded effects

    def events(self, S, instance, a, b, name, where=None, key=None,
               facts=None, exists=(), **kw):
        """The tree's run `a` performs the same calls of `name` as the
        specified run `b`: one to one, under the same conditions, with the
        same arguments.  exists: files taken to be there.  key(terms) labels a call (default: nothing)."""
        ea, eb = a.events(name), b.events(name)
        fs = facts or S.base_facts()
        notes = list(S.ip.notes)
        left = list(ea)
        pairs = []
        rest = []
        lab = key or (lambda ts: None)
        for y in eb:
            ky = harness.strip(lab(evterms(S, y))) if key else None
            hit = None
            for x in left:
                if key is None or \
                        harness.strip(lab(evterms(S, x))) is ky:
                    hit = x
                    break
            if hit is None:
                rest.append(y)
            else:
                left.remove(hit)
                pairs.append((hit, y, ky))
        if len(left) == len(rest):
            pairs += [(x, y, harness.strip(lab(evterms(S, y)))
                       if key else None) for x, y in zip(left, rest)]
            left, rest = [], []
        for x, y, ky in pairs:
            inst = instance + (' ' + T.show(ky, 9) if ky is not None else '')
            self.equal(inst, S.at(x), evsummary(S, x, exists),
                       evsummary(S, y, exists), fs,
                       **kw)
        for y in rest:
            inst = instance + (' ' + T.show(lab(evterms(S, y)), 9)
                               if key else '')
            st = 'violation' if not left and not incomplete(notes) \
                else 'undecided'
            self.record(inst, st, where or '', 'no such call of %s (%d '
                        'expected, %d found)' % (name, len(eb), len(ea)))
        for x in left:
            st = 'violation' if not rest and not incomplete(notes) \
                else 'undecided'
            self.record(instance + ' (extra call)', st, S.at(x),
                        'a call of %s nothing asks for: %s' % (
                            name, short(T.show(evsummary(S, x), 8))))
        if not eb:
            self.undecided(instance, where or '', 'the specification has no '
                           'call of %s' % name)


def incomplete(notes):
    return bool(notes)


def evterms(S, ev):
    if ev.terms is None:
        raise harness.Unsupported('event without terms: %s' % ev.name)
    return ev.terms


def evsummary(S, ev, exists=()):
    """(condition, ranges of the loops around, arguments)."""
    pc = T.tand(*[no_raise(c, exists) for c in ev.pc])
    lp = tuple(n for _, n in ev.loops)
    sub = {v: T.sym('loop%d' % k, 'int') for k, (v, n) in
           enumerate(ev.loops)}

    def s(x):
        return T.subst(x, sub) if sub else x
    return harness.strip(mk('tuple', s(pc), mk('tuple', *[
        s(n) if isinstance(n, T.Term) else NONE for n in lp]),
        mk('tuple', *[s(t) for t in evterms(S, ev)])))


OPENED = ('gdal.Open', 'gdal.OpenEx', 'netCDF4.Dataset')


def failed_open(q):
    """Conditions that only hold when a file cannot be opened."""
    if q.op == 'raises':
        return True
    if q.op == 'is' and NONE in q.args:
        x = q.args[0] if q.args[1] is NONE else q.args[1]
        return x.op in ('call', 'eff') and x.args[0] in OPENED
    return False


def no_raise(c, exists=()):
    at = T.atoms(c, failed_open)
    m = {x: T.FALSE for x in at}
    if exists:
        for x in T.atoms(c, lambda q: q.op == 'call' and q.args[0] in (
                'os.path.exists', 'os.path.isfile') and
                harness.strip(q.args[1]) in exists):
            m[x] = T.TRUE
    return T.subst(c, m) if m else c


def known_findings(pid):
    """[(key, text)] of the listed findings of a property."""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if line.startswith('finding: property=%s ' % pid):
            rest = line.split(' ', 2)[2]
            key, _, text = rest.partition(' | ')
            out.append((key.strip(), text.strip()))
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    c = Check(pid, tier, seed)
    mod = importlib.import_module('rules.' + pid.lower())
    failed = None
    try:
        mod.check(c)
        c.errors()
    except Anchor as e:
        failed = 'anchor: %s' % e
    except SyntaxError as e:
        failed = 'the tree does not parse: %s' % e
    return finish(c, mod, failed, time.time() - t0)


def finish(c, mod, failed, wall):
    pid = c.pid
    obs = c.obligations
    n = {s: [o for o in obs if o['status'] == s]
         for s in ('ok', 'violation', 'undecided')}
    known = known_findings(pid)
    listed, new = [], []
    for o in n['violation']:
        k = [x for x in known if x[0] == o['instance']]
        (listed if k else new).append((o, k[0] if k else None))
    level = getattr(mod, 'LEVEL', 'other')
    cov = {
        'obligations': len(obs), 'discharged': len(n['ok']),
        'undecided': len(n['undecided']),
        'known': len(listed),
        'checker_cmd': 'python3-vt /verif/check.py %s' % pid,
        'trusted_base': 'the abstract interpreter /verif/wmcheck, its models '
                        'of numpy/gdal/netCDF calls, the specification '
                        'functions in /verif/specs',
        'rule': c.rules or (mod.__doc__ or '').strip().split('\n\n'),
        'analysed': c.analysed,
        'samples': [dict(o) for o in obs],
        'explanation': 'Static analysis of the current tree: %d obligations '
                       'over %s; %d discharged, %d undecided.' % (
                           len(obs), ', '.join(c.analysed[:12]) or 'the tree',
                           len(n['ok']), len(n['undecided'])),
    }
    ev = {'property': pid, 'tier': c.tier, 'seed': c.seed, 'level': level,
          'coverage': cov, 'assumptions': c.assumptions,
          'wall_s': round(wall, 2),
          'violations': [dict(instance=o['instance'], where=o['where'],
                              detail=o['detail']) for o, _ in new]}
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for w in c.analysed:
        print('analysed: %s' % w)
    for o in n['ok']:
        print('ok: %s [%s]' % (o['instance'], o['where']))
    for o in n['undecided']:
        print('UNDECIDED: %s [%s]: %s' % (o['instance'], o['where'],
                                          short(o['detail'])))
    for o, k in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[1] or o['instance']))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated '
          '(%.1f s)' % (pid, len(obs), len(n['ok']), len(n['undecided']),
                        len(n['violation']), wall))
    if new:
        path = os.path.join(edir, pid + '.violation.txt')
        with open(path, 'w') as f:
            for o, _ in new:
                f.write('%s\n  at %s\n  %s\n\n' % (
                    o['instance'], o['where'], o['detail']))
                print('violated: %s at %s: %s' % (o['instance'], o['where'],
                                                  short(o['detail'], 1200)))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if failed:
        print('NO ANSWER: %s' % failed)
        return 2
    if len(obs) < c.minimum:
        print('NO ANSWER: %d obligations found, at least %d expected' %
              (len(obs), c.minimum))
        return 2
    if not n['ok'] and not listed:
        print('NO ANSWER: nothing could be decided')
        return 2
    return 0
