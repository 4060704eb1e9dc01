#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a description of a change, after confirming
it: it applies, changes original lines only, the stable tests pass with it,
and the demonstration tells the two trees apart.  Then runs the check.

usage: plant.py BUGS.py [id ...]   (BUGS.py holds a list BUGS of dicts with
id, prop, edits=[(file, old, new)], needs, breaks, demo)
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/wmplant'
ROOT = '8d0a44a'
DEMO = '''#!/bin/bash
export PYTHONPATH="$(dirname "$0"):$PWD:$PWD/utilities:$PWD/topographic"
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=COPY, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def fresh():
    shutil.rmtree('/tmp/wmplant', ignore_errors=True)
    shutil.copytree('/repo', COPY, symlinks=True)
    sh(['git', 'checkout', '-q', '--', '.'])


def tests():
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=':'.join(
        COPY + p for p in ('', '/utilities', '/topographic', '/tests',
                           '/tests/test_topographic')))
    sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
        '--junitxml=/tmp/wmplant.xml', '-o', 'junit_family=xunit2', 'tests'],
       env=env)
    bad = set()
    good = set()
    for t in ET.parse('/tmp/wmplant.xml').getroot().iter('testcase'):
        n = t.get('classname') + '::' + t.get('name')
        (bad if any(c.tag in ('failure', 'error') for c in t) else good).add(n)
    os.remove('/tmp/wmplant.xml')
    sh(['git', 'checkout', '-q', '--', 'tests'])
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [n for n in stable if n not in good]


def demo(d):
    r = sh(['bash', os.path.join(d, 'demo.sh')], timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def blame(diff):
    """removed lines that a later commit added"""
    out = []
    fn = None
    for ln in diff.splitlines():
        if ln.startswith('--- a/'):
            fn = ln[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))?', ln)
        if m:
            no = int(m.group(1))
        elif ln.startswith('-') and not ln.startswith('---'):
            b = sh(['git', 'blame', '-s', '-L', '%d,%d' % (no, no), 'HEAD',
                    '--', fn], cwd='/repo').stdout
            if ROOT not in b.split(' ')[0]:
                out.append('%s:%d' % (fn, no))
            no += 1
        elif ln.startswith(' '):
            no += 1
    return out


def plant(b, keep_going=True):
    d = os.path.join(HERE, 'seeded', b['id'])
    fresh()
    tmp = '/tmp/wmplant.demo'
    shutil.rmtree('/tmp/wmplant.demo', ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.sh', 'w').write(DEMO)
    open(tmp + '/demo.py', 'w').write('from wm import *\n' + b['demo'])
    shutil.copy(os.path.join(HERE, 'tools/wm.py'), tmp)
    rc, txt = demo(tmp)
    if rc != 0:
        return 'demo fails on the unchanged tree: ' + txt
    sh(['git', 'checkout', '-q', '--', '.'])
    for fn, old, new in b['edits']:
        s = open(os.path.join(COPY, fn)).read()
        if old not in s:
            return 'not found: ' + old
        open(os.path.join(COPY, fn), 'w').write(s.replace(old, new, 1))
    diff = sh(['git', 'diff']).stdout
    late = blame(diff)
    if late and not re.search('^-', '\n'.join(
            x for x in diff.splitlines() if not x.startswith('---')), re.M):
        return 'adds only'
    if late:
        return 'changes lines of later commits: ' + ' '.join(late)
    t = tests()
    if t:
        return 'tests fail: ' + ' '.join(t)[:200]
    rc, txt = demo(tmp)
    if rc == 0:
        return 'demo passes with the change'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=b['prop'], needs=b['needs'],
                   what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'),
              indent=1)
    r = sh(['python3-vt', os.path.join(HERE, 'check.py'), b['prop']],
           cwd=HERE, env=dict(os.environ, WMCHECK_REPO=COPY))
    return 'planted; demo: %s; check rc=%d' % (
        txt.strip().splitlines()[-1][:70] if txt.strip() else '',
        r.returncode)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        print(b['id'], b['prop'], '->', plant(b), flush=True)
    shutil.rmtree('/tmp/wmplant', ignore_errors=True)
    shutil.rmtree('/tmp/wmplant.demo', ignore_errors=True)
