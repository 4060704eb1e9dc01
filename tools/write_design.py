"""Rewrites the generated part of DESIGN.md: properties and planted bugs."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/write_design.py -->'


def main():
    man = json.load(open(HERE + '/MANIFEST.json'))
    claims = {c['property']: c for c in man.get('checks', man.get(
        'properties', []))}
    out = [MARK, '', '## Properties and how each is decided', '']
    for line in open(HERE + '/properties.jsonl'):
        p = json.loads(line)
        pid = p['id']
        out.append('### %s %s' % (pid, p['title']))
        rule = HERE + '/rules/%s.py' % pid.lower()
        if not os.path.exists(rule):
            why = [x['reason'] for x in man['not_applicable']
                   if x['property'] == pid]
            out += ['', 'Not applicable: ' + ''.join(why), '']
            continue
        doc = ast.get_docstring(ast.parse(open(rule).read()))
        out += ['', doc, '']
        ev = HERE + '/evidence/%s.json' % pid
        level = [x.split("'")[1] for x in open(rule) if
                 x.startswith('LEVEL')]
        out += ['Level: %s.' % level[0], '']
    out += ['## Planted bugs', '',
            'Each is caught by the check of its property (`vcheck`).', '',
            '| bug | property | what it breaks | needs |', '|---|---|---|---|']
    for d in sorted(glob.glob(HERE + '/seeded/*')):
        m = json.load(open(d + '/meta.json'))
        out.append('| %s | %s | %s | %s |' % (
            os.path.basename(d), m['property'],
            m['what_it_breaks'].replace('\n', ' '),
            m['needs'].replace('\n', ' ')))
    f = HERE + '/DESIGN.md'
    head = open(f).read().split(MARK)[0].rstrip()
    open(f, 'w').write(head + '\n\n' + '\n'.join(out) + '\n')


main()
