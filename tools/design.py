#!/usr/bin/env python3
"""Puts DESIGN.md together from tools/design/*.md and the planted bugs."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = [open(os.path.join(V, 'tools', 'design', f + '.md')).read() for f in ('head', 'props', 'tail')]
rows = ['| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {j.get('caught_by', j['property'])} |")
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(T[0] + '\n' + T[1] + '\n' + T[2] + '\n'.join(rows) + '\n')
