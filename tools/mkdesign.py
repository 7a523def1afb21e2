#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, a section per property made from its
module's constants and tools/design_notes.json, then tools/design_tail.md and
the table of planted bugs."""
import ast, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def consts(path):
    t = ast.parse(open(path).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def read(name):
    return open(os.path.join(HERE, name)).read()


notes = json.loads(read('design_notes.json'))
out = [read('design_head.md'), '\n## The properties\n']
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    c = consts(os.path.join(ROOT, 'mc', 'props', p['id'].lower() + '.py'))
    n = notes.get(p['id'], {})
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('* How: %s.' % c['TECHNIQUE'])
    if n.get('oracle'):
        out.append('* Oracle: %s' % n['oracle'])
    out.append('* Bounds: %s.' % c['BOUNDS'])
    if c.get('ASSUMPTIONS'):
        out.append('* Assumptions: %s.' % '; '.join(c['ASSUMPTIONS']))
    if n.get('cost'):
        out.append('* Cost: %s' % n['cost'])
    out.append('* Why tests cannot settle it: %s' % p['why_tests_cant'])
    if n.get('found'):
        out.append('* Found: %s' % n['found'])
    if n.get('note'):
        out.append('* Note: %s' % n['note'])
    out.append('')
out.append(read('design_tail.md'))
out.append('\n| change | property | needs | caught by |\n|---|---|---|---|')
caught = json.loads(read('caught.json'))
sd = os.path.join(ROOT, 'seeded')
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), caught.get(d, '?')))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
