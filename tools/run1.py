#!/usr/bin/env python3
"""Run one plan in this process (debugging).  run1.py PROP plan.json"""
import sys, os, json, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
if len(sys.argv) > 1 and sys.argv[1] != '--in':
    d = check.build(check.make_scratch())
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONPATH=os.pathsep.join(d), VSIM_TMP=os.path.dirname(d[0]))
    sys.exit(subprocess.call(check.aslr_prefix() + ['/opt/venv/bin/python', '-u', '-s', os.path.abspath(__file__), '--in', d[0]] + sys.argv[1:], env=env, cwd='/tmp'))
d, prop, plan = sys.argv[2:5]
sys.path.remove(os.path.dirname(os.path.abspath(__file__)))
import importlib
import simrt, simctx, faulthandler
mod = importlib.import_module('prop_' + prop.lower())
if getattr(mod, 'ARENA', True):
    simrt.install()
faulthandler.enable()
mod.setup()
plan = json.load(open(plan))
ctx = simctx.Ctx()
if os.environ.get('DBG'):
    exec(open(os.environ['DBG']).read())
mod.run(plan, ctx)
print('ok')
