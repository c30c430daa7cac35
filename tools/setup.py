#!/usr/bin/env python3
"""Nothing is built ahead (every check builds /repo's tree itself); this only
says early when a tool the checks need is missing."""
import shutil, sys, os
need = ['gcc', 'setarch']
miss = [n for n in need if not shutil.which(n)]
if not os.path.exists('/opt/venv/bin/python'):
    miss.append('/opt/venv/bin/python')
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('missing: %s' % ' '.join(miss) if miss else 'ready')
sys.exit(bool(miss))
