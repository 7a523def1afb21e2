#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules (read as text, not imported)."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    path = os.path.join(ROOT, 'mc', 'props', p['id'].lower() + '.py')
    if os.path.exists(path) and p['id'] not in NA:
        c = consts(path)
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': c['TECHNIQUE'], 'level': c['LEVEL'],
            'level_note': 'exhaustive within bounds: ' + c['BOUNDS']})
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(0)"', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo. The checks import /repo/src (CPython) or build the extension from it into a scratch directory (PyPy).'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
