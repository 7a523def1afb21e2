#!/usr/bin/env python3
"""caught.py OUT...: updates caught.json from result lines 'ID: ... | PROP rc=N ...'"""
import json, os, re, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'caught.json')
c = json.load(open(p))
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = re.match(r'\0*([\w-]+): .*\| (C\d\d) rc=(\d+)', l)
        if m:
            c[m.group(1)] = m.group(2) if m.group(3) == '1' else 'missed by ' + m.group(2)
sd = os.path.join(os.path.dirname(p), '..', 'seeded')
c = {k: v for k, v in sorted(c.items()) if os.path.isdir(os.path.join(sd, k))}
json.dump(c, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
