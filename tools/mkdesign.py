#!/opt/venv/bin/python
"""mkdesign.py: fill the tables of DESIGN.md (text in tools/DESIGN.in) from known_findings.json and seeded/."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/tools/DESIGN.in').read()
fx = ['| property | commit | what failed |', '|---|---|---|']
for k in json.load(open(V + '/known_findings.json')):
    if k['status'] == 'fixed':
        fx.append('| %s | %s | %s |' % (k['property'], k['line'].split()[2], k['what']))
sd = ['| id | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    sd.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
open(V + '/DESIGN.md', 'w').write(src.replace('FIXTABLE', '\n'.join(fx)).replace('SEEDTABLE', '\n'.join(sd)))
