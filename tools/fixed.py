#!/usr/bin/env python3
"""Append a 'fixed:' line to known_findings.jsonl for each fix: commit of
/repo that has none yet.  fixed.py PROP=hash,hash ... rest=PROP for all others"""
import subprocess, sys, os
fn = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.jsonl')
have = open(fn).read() if os.path.exists(fn) else ''
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
prop = {}
for a in sys.argv[1:]:
    p, hs = a.split('=')
    if p == 'rest':
        p, hs = hs, 'rest'
    for h in hs.split(','):
        prop[h] = p
with open(fn, 'a') as f:
    for l in log:
        h, s = l.split(' ', 1)
        if not s.startswith('fix: ') or h in have:
            continue
        p = prop.get(h) or prop.get('rest')
        if not p:
            print('no property for', l)
            continue
        f.write('fixed: property=%s %s %s\n' % (p, h, s[5:]))
