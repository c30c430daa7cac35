#!/usr/bin/env python3
"""Run many seeds without stopping, group violations by signature+op.
survey.py PROP N [tier]"""
import sys, os, json, collections, time, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check
prop, n = sys.argv[1].upper(), int(sys.argv[2])
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
d = check.build(check.make_scratch())
t = time.time()
res, err, died = check.run_batch(prop, d, ['%s.%d' % (os.environ.get('VERIF_SEED', '7'), i) for i in range(n)], tier,
                                 8, time.monotonic() + 3000, lambda r: False)
for e in err: print('ERR', e[:3000])
g = collections.defaultdict(list)
pr = collections.Counter(); fa = collections.Counter()
for s, r in res.items():
    for k, v in r.get('probes', {}).items(): pr[k] += v
    for k, v in r.get('faults', {}).items(): fa[k] += v
    if r['status'] != 'ok':
        m = r.get('msg', '')
        key = r['status'], r.get('sig'), (m.strip().split('\n')[-1] if r.get('sig', '').startswith('unexpected') else m.split('\n')[0])[:100 if len(sys.argv) > 4 else 60]
        key = key[:2] + (re.sub(r'-?[0-9]+', '#', key[2]),)
        g[key].append((r.get('nops', 0), s))
print(len(res), 'runs', round(time.time() - t, 1), 's', {k: v for k, v in fa.items()}, dict(pr))
w = check.Worker(prop, d)
for k, v in sorted(g.items(), key=lambda x: -len(x[1]))[:int(os.environ.get('TOP', '12'))]:
    print(len(v), k, sorted(v)[:3])
    if os.environ.get('SHRINK'):
        p = w.ask(cmd='seed', seed=sorted(v)[0][1], tier=tier, want_plan=True)['plan']
        m = w.ask(cmd='shrink', plan=p, sig=k[1], budget=float(os.environ['SHRINK']))
        print('   ', 'CFG', json.dumps(m['plan']['cfg'])[:400]); print('    OPS', json.dumps(m['plan']['ops'])[:900]); print('   ', m.get('msg', '')[-700:].replace('\n', '\n    '))
