#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/catalog.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'sim'))
import catalog
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in catalog.SPECS and os.path.exists(os.path.join(H, 'sim', 'prop_%s.py' % i.lower())):
        s = catalog.SPECS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                           technique='deterministic simulation with fault injection: ' + s['technique'],
                           level='exploration', level_note=s['note']))
    else:
        na.append(dict(property=i, reason=catalog.NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every seam is the allocator, the interpreter (sys.monitoring), the file system and clock '
               'names the code looks up, or a subclass hook. See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks], [n['property'] for n in na])
