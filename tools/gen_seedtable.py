#!/usr/bin/env python3
""" rewrites the table of planted bugs in DESIGN.md from seeds.py (all listed ones were confirmed with plant.py) """
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
MISSED = {} # id -> remark
rows = ['| planted bug | needs | effect | caught by |', '|---|---|---|---|']
for k in sorted(SEEDS):
    if not os.path.exists(os.path.join(V, 'seeded', k)): continue
    s = SEEDS[k]
    rows.append('| %s | %s | %s | %s |' % (k, s['needs'], s['breaks'], MISSED.get(k, s['property'] + ' (quick)')))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
A, B = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = t.index(A) + len(A), t.index(B)
open(p, 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
print(len(rows) - 2, 'planted bugs')
