#!/usr/bin/env python3-vt
"""Runs every check on edits that keep the behaviour (by hand).

    refactor.py FILE.py [ids...]      each edit on a scratch copy of /repo

Prints the checks that raise an alarm, give no answer, or decide less than
on the unchanged tree.
"""
import glob
import os
import re
import runpy
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def run(cid, repo):
    env = dict(os.environ, WMCHECK_REPO=repo)
    try:
        p = subprocess.run([PY, HERE + '/check.py', cid], env=env,
                           capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return cid, 99, 'TIMEOUT', ''
    out = p.stdout + p.stderr
    m = re.search(r'%s: (.*)' % cid, out)
    return cid, p.returncode, m.group(1) if m else '', out


def main():
    edits = runpy.run_path(sys.argv[1])['R']
    want = set(sys.argv[2:])
    only = set(filter(None, os.environ.get('ONLY', '').split(',')))
    ids = sorted(os.path.basename(p)[:-3].upper()
                 for p in glob.glob(HERE + '/rules/c[0-9]*.py'))
    ids = [i for i in ids if not only or i in only]
    for rid, path, subs in edits:
        if want and rid not in want:
            continue
        with tempfile.TemporaryDirectory(prefix='refactor') as d:
            repo = d + '/repo'
            subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
            s = open(repo + '/' + path).read()
            for a, b in subs:
                if a not in s:
                    print('%s: not found: %s' % (rid, a[:60]))
                s = s.replace(a, b, 1)
            open(repo + '/' + path, 'w').write(s)
            compile(s, path, 'exec')
            long_ = [n for n, q in enumerate(s.split('\n'), 1)
                     if len(q) > 79]
            some = ids if not os.environ.get('FAST') else [
                i for i in ids if path in open(
                    '/verif/evidence/%s.json' % i).read() or i in (
                    'C22', 'C23', 'C24', 'C25', 'C26')]
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda i: run(i, repo), some))
            bad = [r for r in res if r[1] or '0 undecided' not in r[2]]
            print('%s: %s%s' % (rid, 'quiet' if not bad else '',
                                ' LONG LINES' if long_ else ''), flush=True)
            for cid, rc, line, out in bad:
                print('   ', cid, 'rc=%d' % rc, line[:150], flush=True)
                xs = [q for q in out.split('\n') if re.match(
                    'violation|UNDECIDED|NO ANSWER|.*Error', q)]
                for q in xs[:3]:
                    print('        ', q[:230], flush=True)


main()
