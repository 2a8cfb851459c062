#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 tools/catalog.py rewrites both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pyg2p/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note, level=level))


exec(open(os.path.join(V, 'tools', 'catalog_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, 'harness', 'props', p['id'].lower() + '.py')):
        cmd = f'/opt/venv/bin/python harness/check.py {p["id"]}'
        checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd=cmd + ' --tier thorough', technique=p['technique'],
                           evidence_file=f'evidence/{p["id"]}.json', level=p['level'], level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p.get('na') or 'check not built yet'))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -B tools/setup.py', checks=checks, not_applicable=na), f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(checks), 'checks', [x['property'] for x in na])
