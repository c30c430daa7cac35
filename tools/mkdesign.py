#!/usr/bin/env python3
"""DESIGN.md from tools/design.in, the per-property notes in tools/design_props.md and the planted bugs"""
import os, json
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
s = open(H + '/tools/design.in').read()
s = s.replace('PROPS_HERE', open(H + '/tools/design_props.md').read().strip())
s = s.replace('FALSE_ALARMS', open(H + '/tools/design_alarms.md').read().strip())
caught = json.load(open(H + '/tools/seed_results.json')) if os.path.exists(H + '/tools/seed_results.json') else {}
t = ['`tools/tryseed.sh ID` validates a planted bug and runs its check on it.', '', '| id | property | needs | caught |', '|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/' + d + '/meta.json'))
    t.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], caught.get(d, 'not tried')))
s = s.replace('SEEDS', '\n'.join(t))
open(H + '/DESIGN.md', 'w').write(s)
