#!/usr/bin/env python3
"""Collects the cost of the last quick runs from evidence/ into tools/cost.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(root + '/evidence/C*.json')):
    d = json.load(open(f)); c = d['coverage']
    if d['tier'] == 'quick' and 'solver_queries' in c:
        out[d['property']] = dict(wall=round(d['wall_s']), paths=c['paths'], queries=c['solver_queries'], vcs=c.get('verification_conditions', c.get('asserts_decided_by_solver')))
json.dump(out, open(root + '/tools/cost.json', 'w'), indent=1)
