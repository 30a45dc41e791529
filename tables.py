#!/usr/bin/env python3
"""Rewrites the lists at the end of DESIGN.md from known_findings.json and seeded/*/meta.json."""
import json, glob, os, re
H = os.path.dirname(os.path.abspath(__file__))
MARK = '<!-- lists below are written by tables.py -->\n'
k = json.load(open(H + '/known_findings.json'))
out = ['## 3. Genuine defects found and repaired\n', 'Each is one `fix:` commit in /repo; none is left as a known finding.\n' if not k.get('known') else '', '', '| property | commit | what failed |', '|---|---|---|']
for x in k['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', x)
    out.append('| %s | %s | %s |' % m.groups())
out += ['', '## 4. Planted bugs', '', 'Each was confirmed (builds, keeps the stable tests, demonstration fails only with it) and is caught by the check of its property.', '', '| id | property | needs |', '|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(f))
    out.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'].replace('|', '/').replace('\n', ' ')))
p = H + '/DESIGN.md'
s = open(p).read().split(MARK)[0].rstrip('\n') + '\n\n' + MARK + '\n' + '\n'.join(out) + '\n'
open(p, 'w').write(s)
