#!/usr/bin/env python3
"""Collects obligations/functions/seconds per property from the evidence into tools/cost.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = {}
for f in sorted(glob.glob(V + '/evidence/P??.json')):
    e = json.load(open(f))
    c[e['property']] = [e['coverage']['obligations'], e['coverage']['n_functions_analysed'], max(1, round(e['wall_s']))]
json.dump(c, open(V + '/tools/cost.json', 'w'))
