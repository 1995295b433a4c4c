#!/usr/bin/env python3
"""Writes vlib/consts.json: how often each integer constant occurs in the sources of the tree the checks were made
for.  Constants beyond these are tried first, as values, lengths and counts (vlib/scen.py: fresh)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vlib import scen
json.dump({f: {str(x): k for x, k in sorted(n.items())} for f, n in sorted(scen.source_consts().items())},
          open(scen.BASE, 'w'), separators=(',', ':'))
open(scen.BASE, 'a').write('\n')
