#!/usr/bin/env python3
"""check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER)
   check.py PROPERTY --replay F replay a violation file
   check.py PROPERTY --selfcheck N   determinism: N seeds twice, several worker counts
Exit 0: held; 1: VIOLATION line printed; 2: the check could not do its work."""
import sys, os, json, time, shutil, subprocess, tempfile, threading, queue, random, hashlib, atexit, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SIM = os.path.join(HERE, 'sim')


class CheckError(Exception):
    pass


def make_scratch():
    base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    # a path of fixed length, so that nothing in a run depends on it
    for k in range(1000):
        d = os.path.join(base, 'vsim-%07d' % ((os.getpid() * 1000 + k) % 10000000))
        try:
            os.mkdir(d, 0o700)
        except FileExistsError:
            continue
        atexit.register(shutil.rmtree, d, True)
        return d
    raise CheckError('no scratch directory')


def build(scratch):
    b = os.path.join(scratch, 'b')
    os.mkdir(b)
    skip = {'.git', 'build', 'dist', '__pycache__', '.pytest_cache', 'docs', 'specs'}

    def ign(d, names):
        return [n for n in names if n in skip or n.endswith(('.so', '.pyc', '.egg-info'))]
    for n in os.listdir(REPO):
        if n in skip or n.endswith(('.egg-info', '.so')):
            continue
        s = os.path.join(REPO, n)
        t = os.path.join(b, n)
        if os.path.islink(s):
            continue
        if os.path.isdir(s):
            shutil.copytree(s, t, ignore=ign)
        else:
            shutil.copy2(s, t)
    env = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONHASHSEED', 'PYTHONSTARTUP', 'LD_PRELOAD'):
        env.pop(k, None)
    env['CFLAGS'] = '-g -O1 -fwrapv -Wall -UNDEBUG'
    r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j', '4'], cwd=b, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError('build failed:\n' + r.stdout.decode('utf-8', 'replace')[-3000:])
    inc = subprocess.check_output([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'],
                                  text=True).strip()
    s = os.path.join(scratch, 's')
    os.mkdir(s)
    for n in os.listdir(SIM):
        if n.endswith('.py'):
            shutil.copy2(os.path.join(SIM, n), os.path.join(s, n))
    r = subprocess.run(['gcc', '-O2', '-g', '-shared', '-fPIC', '-I' + inc,
                        os.path.join(SIM, 'simrt.c'), '-o', os.path.join(s, 'simrt.so')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError('simrt build failed:\n' + r.stdout.decode('utf-8', 'replace')[-3000:])
    return b, s


def aslr_prefix():
    try:
        r = subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode == 0:
            return ['setarch', '-R']
    except OSError:
        pass
    return []


class Worker:
    def __init__(self, prop, dirs, hashseed='0'):
        b, s = dirs
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/nonexistent', 'LANG': 'C.UTF-8',
               'PYTHONHASHSEED': hashseed, 'PYTHONPATH': b + os.pathsep + s,
               'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC',
               'VSIM_TMP': os.path.dirname(b)}
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen(aslr_prefix() + [PY, os.path.join(s, 'worker.py'), prop, b],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=env, text=True, cwd=os.path.dirname(b))
        try:
            self.read()                    # the simulator is in place
        except WorkerDied as e:
            raise CheckError('worker did not start: %s' % e)
        try:
            r = self.read()
        except WorkerDied as e:
            raise SetupFailed('the process died while setting up\n%s' % e)
        if r.get('harness'):
            raise CheckError(r['harness'])
        if not r.get('ready'):
            raise SetupFailed(r.get('setup_error') or 'setup failed')

    def read(self):
        line = self.p.stdout.readline()
        if not line:
            self.errf.seek(0)
            raise WorkerDied(self.errf.read()[-3000:].decode('utf-8', 'replace'))
        return json.loads(line)

    def ask(self, **c):
        self.p.stdin.write(json.dumps(c) + '\n')
        self.p.stdin.flush()
        return self.read()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


class WorkerDied(CheckError):
    pass


class SetupFailed(Exception):
    """The code under test could not even be imported or set up."""


def load_known(prop):
    known = []
    fn = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('{'):
                k = json.loads(line)
                if k.get('property') == prop and k.get('status') == 'known':
                    known.append(k)
    return known


def run_batch(prop, dirs, seeds, tier, nworkers, deadline, stop_on_violation=True, want_plan=()):
    """Run the seeds over the workers; results in order of seed."""
    results = {}
    errors = []
    lock = threading.Lock()
    it = iter(seeds)
    stop = threading.Event()

    def loop():
        w = None
        try:
            w = Worker(prop, dirs)
            while not stop.is_set():
                if time.monotonic() > deadline:
                    return
                with lock:
                    try:
                        s = next(it)
                    except StopIteration:
                        return
                r = w.ask(cmd='seed', seed=s, tier=tier, want_plan=s in want_plan)
                with lock:
                    results[s] = r
                if r['status'] == 'violation' and stop_on_violation(r):
                    stop.set()
                if r['status'] == 'harness':
                    errors.append('seed %s: %s' % (s, r['msg']))
                    stop.set()
        except WorkerDied as e:
            errors.append('worker died: %s' % e)
            stop.set()
        except SetupFailed as e:
            died.append(str(e))
            stop.set()
        except Exception as e:
            import traceback
            errors.append(traceback.format_exc())
            stop.set()
        finally:
            if w:
                w.close()
    died = []
    ts = [threading.Thread(target=loop) for _ in range(nworkers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results, errors, died


def main():
    prop = sys.argv[1].upper()
    args = sys.argv[2:]
    seed0 = int(os.environ.get('VERIF_SEED') or '1')
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in args:
        tier = 'thorough'
    nworkers = int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 1))
    t0 = time.monotonic()
    sys.path.insert(0, SIM)
    import catalog
    spec = catalog.SPECS[prop]
    scratch = make_scratch()
    dirs = build(scratch)
    tbuild = time.monotonic() - t0

    if '--replay' in args:
        f = json.load(open(args[args.index('--replay') + 1]))
        try:
            w = Worker(prop, dirs)
        except SetupFailed as e:
            print('VIOLATION property=%s replay=%s' % (prop, args[args.index('--replay') + 1]))
            print(e)
            return 1
        r = w.ask(cmd='plan', plan=f['plan'], keep=True)
        w.close()
        print(json.dumps(r, indent=1)[:20000])
        same = r['status'] == 'violation' and r['sig'] == f['sig']
        print('REPLAY', 'reproduces' if same else 'does not reproduce', f['sig'])
        if r['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (prop, args[args.index('--replay') + 1]))
            return 1
        return 0 if r['status'] == 'ok' else 2

    if '--selfcheck' in args:
        n = int(args[args.index('--selfcheck') + 1])
        seeds = list(range(n))
        base = None
        bad = 0
        for nw in (nworkers, 1 if n <= 400 else 3, 5):
            res, err, _ = run_batch(prop, dirs, seeds, tier, nw, time.monotonic() + 3000, lambda r: False)
            if err:
                print('\n'.join(err))
            logs = {s: (r['status'], r.get('sig'), r.get('log')) for s, r in res.items()}
            if base is None:
                base = logs
            else:
                for s in seeds:
                    if base.get(s) != logs.get(s):
                        bad += 1
                        print('seed', s, base.get(s), logs.get(s))
        print('selfcheck', prop, 'seeds', n, 'x3, divergences', bad)
        return 1 if bad else 0

    nruns = spec['runs'][0 if tier == 'quick' else 1]
    if os.environ.get('VERIF_RUNS'):
        nruns = int(os.environ['VERIF_RUNS'])
    cap = float(os.environ.get('VERIF_CAP') or (420 if tier == 'quick' else 5400))
    deadline = t0 + cap
    known = load_known(prop)
    knownsigs = {k['sig'] for k in known}

    # the recorded findings are replayed first
    printed_known = []
    setup_failed = None
    try:
        Worker(prop, dirs).close()
    except SetupFailed as e:
        setup_failed = str(e)
    if known and not setup_failed:
        w = Worker(prop, dirs)
        for k in known:
            r = w.ask(cmd='plan', plan=k['plan'])
            if r['status'] == 'violation' and r['sig'] == k['sig']:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                printed_known.append(k['sig'])
            elif r['status'] == 'harness':
                raise CheckError(r['msg'])
        w.close()

    seeds = ['%d.%d' % (seed0, i) for i in range(nruns)]
    samples_at = set(seeds[:2])
    if setup_failed:
        results, errors, died = {}, [], [setup_failed]
    else:
        results, errors, died = run_batch(prop, dirs, seeds, tier, nworkers, deadline,
                                          lambda r: r['sig'] not in knownsigs, samples_at)
    viol = [s for s in seeds if s in results and results[s]['status'] == 'violation'
            and results[s]['sig'] not in knownsigs]
    t_run = time.monotonic() - t0 - tbuild
    rc = 0
    replay = None
    if viol:
        s = viol[0]
        r = results[s]
        w = Worker(prop, dirs)
        try:
            m = w.ask(cmd='shrink', plan=r['plan'], sig=r['sig'], budget=60 if tier == 'quick' else 240)
        except WorkerDied as e:
            m = dict(r, tries=0)
        w.close()
        if m.get('status') != 'violation':
            m = dict(r, tries=m.get('tries', 0))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        replay = os.path.join(HERE, 'evidence', '%s.replay.json' % prop)
        # replay in a fresh process
        w = Worker(prop, dirs)
        again = w.ask(cmd='plan', plan=m['plan'], keep=True)
        w.close()
        reproduced = again.get('status') == 'violation' and again.get('sig') == m['sig']
        if not reproduced:          # the minimised plan is not stable: report the original one
            m = dict(r, tries=m.get('tries', 0))
        with open(replay, 'w') as f:
            json.dump(dict(property=prop, seed=s, tier=tier, sig=m['sig'], msg=m['msg'], plan=m['plan'],
                           original_ops=r.get('nops'), shrink_tries=m.get('tries'),
                           replayed_identically=reproduced and again.get('log') == m.get('log'),
                           log=again.get('logtext'), stderr=again.get('stderr') or r.get('stderr')), f, indent=1)
        print('seed %s: %s\n%s' % (s, m['sig'], m['msg']))
        print('minimised to %d operations (from %s)' % (len(m['plan']['ops']), r.get('nops')))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        rc = 1
    elif died:
        # every run starts by importing the code and opening a session: it never works
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        replay = os.path.join(HERE, 'evidence', '%s.replay.json' % prop)
        with open(replay, 'w') as f:
            json.dump(dict(property=prop, seed=None, tier=tier, sig='setup', msg=died[0],
                           plan=dict(cfg={}, ops=[])), f, indent=1)
        print('setup: %s' % died[0])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        rc = 1
    elif errors:
        rc = 2
        print('ERROR', errors[0])

    ok = [r for r in results.values() if r['status'] in ('ok', 'violation')]
    faults, probes, states = {}, {}, set()
    steps = simt = 0
    logs = set()
    for r in ok:
        for k, v in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get('probes', {}).items():
            probes[k] = probes.get(k, 0) + v
        states.update(r.get('states', ()))
        steps += r.get('steps', 0)
        simt += r.get('simtime', 0)
        logs.add(r.get('log'))
    wall = time.monotonic() - t0
    ev = dict(property=prop, tier=tier, seed=seed0, level='exploration', wall_s=round(wall, 2),
              violations=len(viol) or int(bool(died)),
              coverage=dict(
                  evaluations=len(ok), distinct_nontrivial=len(logs),
                  rule=spec['rule'],
                  samples=[dict(seed=s, plan=clip(results[s].get('plan'))) for s in seeds[:2] if s in results],
                  simulated_runs_requested=nruns,
                  runs_per_hour=int(len(ok) * 3600 / max(t_run, 0.001)),
                  seeds_per_hour=int(len(ok) * 3600 / max(t_run, 0.001)),
                  simulated_steps=steps,
                  simulated_time=dict(unit=spec.get('time_unit', 'operation steps'),
                                      total=simt or steps),
                  faults_injected=dict(sorted(faults.items())),
                  probes=dict(sorted(probes.items())),
                  distinct_states=len(states), distinct_states_measure=spec['states'],
                  distinct_event_logs=len(logs),
                  real_components=spec['real'], stub_components=spec['stub'],
                  known_findings_reproduced=printed_known,
                  build_s=round(tbuild, 2), workers=nworkers, aslr_off=bool(aslr_prefix())),
              assumptions=spec.get('assumptions', []))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', '%s.json' % prop))
    if rc == 0:
        if not ok:
            print('ERROR no run completed')
            return 2
        print('%s: %d runs, %d steps, %d distinct states, %.1f s, held' % (prop, len(ok), steps, len(states), wall))
        dead = [p for p in spec.get('expect_probes', ()) if not probes.get(p)]
        if dead:
            print('note: probes never hit:', ', '.join(dead))
    return rc


def clip(plan):
    s = json.dumps(plan)
    if len(s) > 3000:
        return s[:3000] + '...'
    return plan


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        rc = main()
    except CheckError as e:
        print('ERROR', e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
