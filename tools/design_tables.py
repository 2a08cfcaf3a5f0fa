#!/usr/bin/env python3
"""Rewrites the generated table of planted bugs in DESIGN.md (between markers)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + '/tools/caught.json'))
rows = ['| planted change | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| `{d}` | {m['needs']} | {caught.get(d, '?')} |")
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- planted:begin -->', '<!-- planted:end -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])
