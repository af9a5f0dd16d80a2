#!/usr/bin/env python3
"""Collects tools/costs.json from the evidence of quick runs."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = {}
for f in sorted(glob.glob(HERE + '/evidence/C*.json')):
    d = json.load(open(f)); c = d['coverage']
    if d['tier'] == 'quick':
        r[d['property']] = {'cases': len(c['cases']), 'paths': c['states'], 'queries': c['solver_queries'], 'wall': round(d['wall_s']), 'functions': len(c['functions_encoded'])}
json.dump(r, open(HERE + '/tools/costs.json', 'w'), indent=0)
