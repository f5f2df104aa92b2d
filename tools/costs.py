#!/usr/bin/env python3
"""costs.py: reads the evidence of quick (or, with -t, thorough) runs into costs.json."""
import json, glob, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(V)
p = 'tools/costs.json'
c = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob('evidence/C*.json'):
    e = json.load(open(f)); d = c.setdefault(e['property'], {})
    if e['tier'] == 'quick': pre = ''
    else: pre = 't_'
    d[pre+'traces'] = e['coverage']['traces_validated_against_impl']; d[pre+'transitions'] = e['coverage']['transitions']
    d[pre+'states'] = e['coverage']['states']; d[pre+'wall'] = round(e['wall_s'])
json.dump(c, open(p, 'w'), indent=1, sort_keys=True)
