"""A worker process: imports one property module against one build of the
code under test, then runs each requested plan in a forked child.

Protocol: JSON lines on stdin -> JSON lines on stdout.
"""
import sys, os, json, time, random, signal, resource, traceback, select, struct
import importlib

CPU_LIMIT = 60


def child(mod, plan, keep):
    import simctx
    ctx = simctx.Ctx()
    if keep:
        ctx.keep = []
    res = {}
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        try:
            mod.run(plan, ctx)
            res['status'] = 'ok'
        except simctx.HarnessError as e:
            res.update(status='harness', msg=traceback.format_exc())
        except simctx.Violation as e:
            res.update(status='violation', sig=e.sig, msg=e.msg)
        except BaseException as e:
            res.update(status='violation', sig='unexpected:%s' % type(e).__name__,
                       msg=traceback.format_exc()[-3000:])
        res.update(ctx.result())
        if keep:
            res['logtext'] = ctx.keep[-4000:]
    except BaseException:
        res = dict(status='harness', msg=traceback.format_exc())
    return json.dumps(res).encode()


def zygote(prop, builddir, base, infd, outfd):
    """Set the code under test up once, then fork a child for every plan."""
    import faulthandler
    import simrt
    out = open(base + '.out', 'wb', buffering=0)

    def say(x):
        out.write(json.dumps(x).encode())
    mod = importlib.import_module('prop_' + prop.lower())
    if getattr(mod, 'ARENA', True):
        simrt.install()
    faulthandler.enable(all_threads=False)
    os.write(outfd, b'installed')
    # from here on a failure is the doing of the code under test
    try:
        import guppy
        real = os.path.realpath(guppy.__file__)
        if not real.startswith(os.path.realpath(builddir)):
            say(dict(ready=0, harness='wrong guppy imported: %s' % real))
            return
        mod.setup()
    except BaseException:
        say(dict(ready=0, setup_error=traceback.format_exc()[-3000:]))
        return
    import gc
    gc.collect()
    say(dict(ready=1))
    os.write(outfd, b'set up...')
    req = json.loads(simrt.serve(infd, outfd))
    # a child
    try:
        data = child(mod, req['plan'], req['keep'])
        with open(base + '.out', 'wb', buffering=0) as f:
            f.write(data)
    finally:
        os._exit(0)


class Zygote:
    def __init__(self, prop, builddir):
        self.base = os.path.join(os.environ['VSIM_TMP'], 'w%05d' % (os.getpid() % 100000))
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.err = open(self.base + '.err', 'ab', buffering=0)
        open(self.base + '.out', 'wb').close()
        self.w, self.r = w1, r2
        pid = os.fork()
        if pid == 0:
            os.dup2(self.err.fileno(), 1)
            os.dup2(self.err.fileno(), 2)
            os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
            os.dup2(r1, 100)
            os.dup2(w2, 101)
            os.closerange(3, 100)
            os.execv(sys.executable, [sys.executable, os.path.abspath(__file__), '--zygote', prop, builddir, self.base])
        self.pid = pid
        os.close(r1)
        os.close(w2)
        self.state = {}
        if self.read(9, 120) != b'installed':
            self.state = dict(harness='the simulator could not start:\n' + self.errtext())
            return
        if self.read(9, 120) == b'set up...':
            self.state = dict(ready=1)
            return
        try:
            self.state = json.loads(open(self.base + '.out', 'rb').read())
        except ValueError:
            self.state = dict(ready=0, setup_error='the process died while setting up\n' + self.errtext())

    def errtext(self):
        try:
            with open(self.base + '.err', 'rb') as f:
                return f.read()[-3000:].decode('utf-8', 'replace')
        except OSError:
            return ''

    def read(self, n, wall):
        buf = b''
        end = time.monotonic() + wall
        while len(buf) < n:
            left = end - time.monotonic()
            rd, _, _ = select.select([self.r], [], [], max(0, left))
            if not rd:
                return None
            d = os.read(self.r, n - len(buf))
            if not d:
                return buf
            buf += d
        return buf

    def run(self, plan, keep=False, wall=400):
        os.truncate(self.base + '.err', 0)
        os.truncate(self.base + '.out', 0)
        data = json.dumps(dict(plan=plan, keep=keep)).encode()
        data = struct.pack('q', len(data)) + data
        while data:
            n = os.write(self.w, data)
            data = data[n:]
        p = self.read(8, 60)
        if p is None or len(p) < 8:
            return dict(status='harness', msg='the zygote is gone\n' + self.errtext())
        pid, = struct.unpack('q', p)
        s = self.read(8, wall)
        timed_out = s is None
        if timed_out:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            s = self.read(8, 60)
        if not s or len(s) < 8:
            return dict(status='harness', msg='the zygote is gone\n' + self.errtext())
        st, = struct.unpack('q', s)
        errt = self.errtext()
        if timed_out:
            return dict(status='harness', msg='wall clock limit of one run exceeded\n' + errt)
        none = dict(faults={}, probes={}, states=[], steps=0, simtime=0)
        if os.WIFSIGNALED(st):
            sg = os.WTERMSIG(st)
            if sg == signal.SIGKILL:
                return dict(status='harness', msg='run was killed (SIGKILL)\n' + errt)
            if sg == signal.SIGXCPU:
                return dict(none, status='violation', sig='hang',
                            msg='no end within %d s of CPU time\n' % CPU_LIMIT + errt, log='hang')
            return dict(none, status='violation', sig='crash:' + signal.Signals(sg).name,
                        msg='the process died with %s\n%s' % (signal.Signals(sg).name, errt), log='crash')
        try:
            with open(self.base + '.out', 'rb') as f:
                res = json.loads(f.read())
        except ValueError:
            return dict(status='harness', msg='no result (exit status %r)\n%s' % (st, errt))
        if res['status'] == 'violation' and errt:
            res['stderr'] = errt
        return res

    def close(self):
        os.close(self.w)


Z = None


def run_forked(mod, plan, keep=False):
    return Z.run(plan, keep)


def make_plan(mod, prop, seed, tier):
    rng = random.Random('%s:%s' % (prop, seed))
    plan = mod.gen(rng, tier)
    return json.loads(json.dumps(plan))


def shrink(mod, plan, sig, budget):
    """Minimise plan['ops'] (and what mod.shrinks offers) keeping sig."""
    end = time.monotonic() + budget
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        r = run_forked(mod, p)
        return r['status'] == 'violation' and r['sig'] == sig

    def out_of_time():
        return time.monotonic() > end

    changed = True
    while changed and not out_of_time():
        changed = False
        ops = plan['ops']
        n = 2
        while len(ops) >= 1 and not out_of_time():
            size = max(1, len(ops) // n)
            for i in range(0, len(ops), size):
                cand = dict(plan, ops=ops[:i] + ops[i + size:])
                if fails(cand):
                    plan, ops = cand, cand['ops']
                    n = max(n - 1, 2)
                    changed = True
                    break
                if out_of_time():
                    break
            else:
                if size == 1:
                    break
                n = min(len(ops), n * 2)
        if hasattr(mod, 'shrinks'):
            again = True
            while again and not out_of_time():
                again = False
                for cand in mod.shrinks(plan):
                    if fails(cand):
                        plan = cand
                        again = changed = True
                        break
                    if out_of_time():
                        break
    return plan, tries


def main():
    global Z
    if sys.argv[1] == '--zygote':
        return zygote(*sys.argv[2:5], 100, 101)
    prop, builddir = sys.argv[1:3]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)

    def say(x):
        out.write(json.dumps(x) + '\n')
        out.flush()
    say(dict(stage=1))
    Z = Zygote(prop, builddir)
    if not Z.state.get('ready'):
        say(Z.state)
        return
    mod = importlib.import_module('prop_' + prop.lower())
    say(dict(ready=1))
    for line in sys.stdin:
        c = json.loads(line)
        if c['cmd'] == 'seed':
            plan = make_plan(mod, prop, c['seed'], c['tier'])
            r = run_forked(mod, plan)
            if r['status'] == 'harness':      # once more: the machine may have been short of something
                r = run_forked(mod, plan)
            if r['status'] == 'violation' or c.get('want_plan'):
                r['plan'] = plan
            r['nops'] = len(plan['ops'])
            say(r)
        elif c['cmd'] == 'plan':
            say(run_forked(mod, c['plan'], keep=c.get('keep', False)))
        elif c['cmd'] == 'shrink':
            plan, tries = shrink(mod, c['plan'], c['sig'], c['budget'])
            r = run_forked(mod, plan, keep=True)
            r['plan'] = plan
            r['tries'] = tries
            say(r)


if __name__ == '__main__':
    main()
