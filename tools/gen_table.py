#!/usr/bin/env python3
"""prints the table of planted changes for DESIGN.md"""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['what_it_breaks'], m['needs']))
print('| caught by | id | change | shows only with |\n|---|---|---|---|')
for r in sorted(rows):
    print('| %s | %s | %s | %s |' % tuple(x.replace('|', '/') for x in r))
