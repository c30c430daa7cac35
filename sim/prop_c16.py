"""C16: sessions whose parts are created in any order, by any route, by several
threads at once, with creations failing or interrupted at any point."""
import sys, gc, types, signal, random, threading, _thread, traceback
import simrt, interp
import prop_c12 as c12
from simctx import Violation, HarnessError, need

REAL = threading.Event
RealLock = _thread.allocate_lock


class Boom(Exception):
    pass


# -- threads: one runs at a time, and others get their turn at chosen lines ----

class Killed(BaseException):
    pass


class SimLock:
    """stands for the locks of guppy.etc.Glue"""
    reentrant = True

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.owner is not None and not (self.owner == me and self.reentrant):
            if not blocking:
                return False
            SCHED.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    _is_owned = locked


class PlainLock(SimLock):
    reentrant = False


class Thr:
    def __init__(self, i, f):
        self.i, self.f = i, f
        self.go = REAL()
        self.lock = None
        self.done = False
        self.res = self.exc = None


class Sched:
    def __init__(self):
        self.on = False
        self.byid = {}

    def run(self, fns, points, faults, ctx):
        """points: numbers of line events at which the next thread goes on;
        faults: {number: thread} where an exception is raised"""
        self.ctrl = REAL()
        self.thr = [Thr(i, f) for i, f in enumerate(fns)]
        self.points, self.faults = set(points), set(faults)
        self.n = 0
        self.switches = 0
        self.fired = []
        self.dead = False
        self.trace = []
        for t in self.thr:
            t.t = threading.Thread(target=self.main, args=(t,), daemon=True)
            t.t.start()
        cur = -1
        self.on = True
        try:
            while True:
                live = [t for t in self.thr if not t.done]
                if not live:
                    break
                ready = [t for t in live if t.lock is None or t.lock.owner is None]
                if not ready:
                    raise Violation('deadlock', '%d threads wait for each other' % len(live))
                t = next((t for t in ready if t.i > cur), ready[0])
                cur = t.i
                t.lock = None
                self.trace.append((self.n, cur))
                self.switches += 1
                self.ctrl.clear()
                t.go.set()
                if not self.ctrl.wait(60):
                    raise HarnessError('a thread does not come back')
        finally:
            self.on = False
            self.dead = True
            for t in self.thr:
                t.go.set()
            for t in self.thr:
                t.t.join(10)
        return self.thr

    def main(self, t):
        t.go.wait()
        if self.dead:
            return
        self.byid[_thread.get_ident()] = t
        try:
            t.res = t.f()
        except Killed:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            del self.byid[_thread.get_ident()]
            t.done = True
            self.ctrl.set()

    def pause(self, t):
        t.go.clear()
        self.ctrl.set()
        t.go.wait()
        if self.dead:
            raise Killed

    def block(self, lock):
        t = self.byid.get(_thread.get_ident())
        if t is None:
            raise Violation('deadlock', 'a lock is still held by a thread that is not there')
        t.lock = lock
        self.pause(t)

    def line(self, code, no):
        if not self.on:
            return
        t = self.byid.get(_thread.get_ident())
        if t is None:
            return
        self.n += 1
        if self.n in self.points:
            self.pause(t)
        if self.faults and self.n >= min(self.faults) and not code.co_filename.endswith('Glue.py'):
            self.faults.remove(min(self.faults))
            self.fired.append(t.i)
            raise Boom('simulated')


SCHED = Sched()
SIMCODES = set()
PRESENT, USEHAS = [], []
MODS = ['View', 'UniSet', 'Use', 'Classifiers', 'Part', 'Path', 'RefPat', 'OutputHandling', 'ImpSet', 'Doc', 'Target', 'Spec', 'heapyc', 'AbstractAlgebra', 'Monitor', 'Remote', 'RemoteConstants']


def setup():
    global Glue, guppy, NAMES, ALIAS, CHG, WORLD, ROOTS, FIRST
    gc.disable()
    import guppy.etc.Glue as Glue
    simlocks(Glue)
    import guppy
    world()
    r = guppy.Root()
    h = r.guppy.heapy
    NAMES, ALIAS, CHG = [], {}, set()
    for m in MODS:
        try:
            sh = getattr(h, m)
        except (AttributeError, ImportError):
            continue
        PRESENT.append(m)
        C = getattr(sys.modules['guppy.heapy.' + m], '_GLUECLAMP_', None)
        if C is None:
            continue
        chg = set(getattr(C, '_chgable_', ())) | set(getattr(C, '_setable_', ()))
        CHG |= {(m, c) for c in chg}
        names = set()
        for k in C.__dict__:
            if k.startswith('_get_'):
                names.add(k[5:])
            elif not k.startswith('_'):
                names.add(k)
        for im in getattr(C, '_imports_', ()):
            pre, suf = im.split(':')
            CLAUSES.append((m, tuple(x.strip() for x in suf.split(','))))
            for s in suf.split(','):
                s = s.strip()
                names.add(s)
                p = pre.strip().split('.')
                if p[0] == '_parent' and len(p) == 2 and p[1] in MODS:
                    ALIAS[m, s] = p[1], s
        for n in sorted(names):
            try:
                getattr(sh, n)
            except Exception:
                continue
            NAMES.append((m, n))
    need(len(NAMES) > 150, 'catalog', 'few names')
    NAMESET.update(NAMES)
    need(len(CLAUSES) > 30, 'catalog', 'few clauses')
    USEHAS.extend(m for m in PRESENT if hasattr(h.Use, m))
    need('View' in USEHAS, 'catalog', 'no View in Use')
    for s in ({}, {'root': 1}):
        for k in USES:
            ref(s, k)
    REF.clear()
    gc.collect()
    interp.setup()
    M = sys.monitoring
    M.use_tool_id(4, 'raise')
    M.register_callback(4, M.events.RAISE, c12.on_raise)
    M.use_tool_id(5, 'threads')
    M.register_callback(5, M.events.LINE, SCHED.line)
    for c in interp.codes(interp.GUPPY):
        M.set_local_events(5, c, M.events.LINE)
    signal.signal(signal.SIGINT, on_sigint)
    SIMCODES.update(v.__code__ for c in (SimLock, PlainLock, Sched) for v in vars(c).values() if isinstance(v, types.FunctionType))
    gc.collect()


def simlocks(mod):
    """the locks of a module are ours from now on"""
    R, L = type(threading.RLock()), type(threading.Lock())
    py = threading._PyRLock

    def sub(v):
        if isinstance(v, (R, py)):
            return SimLock()
        if isinstance(v, L):
            return PlainLock()
        if v is threading.RLock or v is R or v is py:
            return SimLock
        if v is _thread.allocate_lock or v is L:
            return PlainLock
        if v is threading or v is _thread:
            ns = types.SimpleNamespace(**vars(v))
            ns.RLock, ns.Lock, ns.allocate_lock = SimLock, PlainLock, PlainLock
            return ns
        return v
    todo = [mod] + [c for c in vars(mod).values() if isinstance(c, type) and c.__module__ == mod.__name__]
    for o in todo:
        for k, v in list(vars(o).items()):
            x = sub(v)
            if x is not v:
                setattr(o, k, x)


def world():
    global ROOTS
    # no classes: they lead to all the types there are
    N = types.SimpleNamespace
    ROOTS = []
    for k in range(2):
        y = [None, types.ModuleType('m%d' % k)]
        x = N(a=[y, (1, 'two%d' % k)], b={'k': y})
        y += [x, [types.ModuleType('n%d' % k), 1.5 + k]]
        w = [x, y, [[[k]]] * (k + 1), {1: b'x' * 50}, set('ab'), (), None, N(), {'x': N(c=x)}]
        ROOTS.append([w, 'root%d' % k] + [[i] * i for i in range(3 + 9 * k)])


# -- what is done with a session -------------------------------------------

USES = {}


def use(f):
    USES[f.__name__[2:]] = f


def objs(hp):
    w = ROOTS[0][0]
    return hp.idset([w, w[0], w[1], w[2], w[3], ROOTS[0], w[1][3], w[0].__dict__])


@use
def u_heap(hp): return str(hp.heap())
@use
def u_iso(hp): return [str(hp.iso(x)) for x in ROOTS[0][0]]
@use
def u_type(hp): return str(objs(hp).bytype)
@use
def u_clodo(hp): return str(objs(hp).byclodo)
@use
def u_id(hp): return str(objs(hp).byid)
@use
def u_size(hp): return str(objs(hp).bysize)
@use
def u_rcs(hp): return str(objs(hp).byrcs)
@use
def u_via(hp): return str(objs(hp).byvia)
@use
def u_module(hp): return str(objs(hp).bymodule)
@use
def u_unity(hp): return str(objs(hp).byunity)
@use
def u_and(hp): return str(objs(hp).by(hp.Type & hp.Size))
@use
def u_refdby(hp): return str(objs(hp).by(hp.Type.refdby))
@use
def u_dictof(hp): return str(objs(hp).by(hp.Clodo.dictof))
@use
def u_more(hp):
    m = hp.idset(ROOTS[1]).byid.more
    return [str(m), str(m.more), str(m.all)]
@use
def u_shpaths(hp): return str(hp.iso(ROOTS[0][0][1]).shpaths)
@use
def u_rp(hp): return str(hp.iso(ROOTS[0][0][1]).rp)
@use
def u_referrers(hp): return str(hp.iso(ROOTS[0][0][1]).referrers.byid)
@use
def u_domi(hp): return [str(hp.iso(ROOTS[0][0][2]).dominos.byid), hp.iso(ROOTS[0][0]).domisize]
@use
def u_imdom(hp): return str(hp.iso(ROOTS[0][0][0]).imdom)
@use
def u_kinds(hp): return [str(k) for k in (hp.Type.Dict, hp.Nothing, hp.Anything, hp.Type.Module, ~hp.Type.Dict, hp.Type.Dict | hp.Type.List)]
@use
def u_algebra(hp):
    s = objs(hp)
    return [str(s & hp.Type.List), str(s - hp.Type.List), str(s & ~hp.Type.List), str(s & hp.Size(56)), s.count, s.indisize]
@use
def u_stat(hp):
    st = objs(hp).stat
    return [str(st), len(st), str(st[0])]
@use
def u_parts(hp): return [str(x) for x in objs(hp).parts]
@use
def u_findex(hp): return str(objs(hp).by(hp.findex(hp.Type.List, hp.Size(56))))
@use
def u_biper(hp): return str(objs(hp).by(hp.Type.List.biper))
@use
def u_doc(hp): return [str(hp), str(hp.doc), str(objs(hp).doc)[:400]]
@use
def u_fam(hp): return [repr(hp.iso()), repr(hp.Type.Dict), repr(hp.Id(id(ROOTS[0])))]


def canon(t):
    if isinstance(t, (list, tuple)):
        return [canon(x) for x in t]
    return t


SETTINGS = {'max': [10, 1, 3, 5], 'line': [80, 40, 120], 'root': [0, 1], 'rel': [0, 1], 'depth': [7, 2], 'summ': [80, 30], 'src': [0, 1]}


def apply(hp, k, v):
    P = hp._parent
    if k == 'max':
        P.OutputHandling.max_more_lines = v
    elif k == 'line':
        P.Part.line_length = v
    elif k == 'root':
        hp.View.root = ROOTS[v]
    elif k == 'depth':
        P.RefPat.depth = v
    elif k == 'summ':
        P.UniSet.max_summary_length = v
    elif k == 'src':
        P.Path.srcname_1 = ['Src', 'Source%s'][v] if v else P.Path.srcname_1
    elif k == 'rel':
        if v:
            hp.setrelheap()
        else:
            hp.relheap = hp.Nothing


REF = {}


def ref(settings, k):
    """what it is in a session of its own, that nothing happened to"""
    key = tuple(sorted(settings.items())), k
    if key not in REF:
        hp = guppy.hpy()
        hp.View.root = ROOTS[settings.get('root', 0)]
        for a in sorted(settings):
            # (what is relative depends on the root when it was set)
            if a == 'rel' and settings[a]:
                hp.View.root = ROOTS[settings[a] - 1]
                apply(hp, a, 1)
                hp.View.root = ROOTS[settings.get('root', 0)]
            else:
                apply(hp, a, settings[a])
        REF[key] = canon(USES[k](hp))
    return REF[key]


def shape(x):
    if isinstance(x, Glue.Interface):
        return 'I', x._share.name
    if isinstance(x, types.ModuleType):
        return 'm', x.__name__
    if isinstance(x, type):
        return 't', x.__qualname__
    if isinstance(x, (types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
        return 'f', x.__qualname__
    if isinstance(x, (str, int, float)) or x is None:
        return 'v', repr(x)
    if isinstance(x, (tuple, list, dict, set)):
        return 'c', type(x).__name__
    return 'o', type(x).__qualname__


SHAPES = {}


def refshape(m, n):
    if (m, n) not in SHAPES:
        SHAPES[m, n] = shape(fetch(guppy.Root(), 0, m, n))
    return SHAPES[m, n]


CLAUSES = []
NAMESET = set()


def fetch(r, route, m, n):
    """a part, by one of several routes"""
    if route % 5 == 0:
        h = r.guppy.heapy
    elif route % 5 == 1:
        h = r.guppy.heapy.Use._parent
    elif route % 5 == 2:
        h = r._root.guppy.heapy.View._parent
    elif route % 5 == 3:
        h = r.guppy.heapy.Use.View._parent
    else:
        h = getattr(r.guppy.heapy, PRESENT[route % len(PRESENT)])._parent
    if m == 'heapy':
        return getattr(h, n)
    if route & 64 and m in USEHAS:
        return getattr(getattr(h.Use, m), n)
    return getattr(getattr(h, m), n)


class Bound(tuple):
    pass


class Session:
    def __init__(self, ctx, i):
        self.ctx, self.i = ctx, i
        self.root = guppy.Root()
        self.parts = {}
        self.settings = {}
        self.dirty = False

    @property
    def hp(self):
        hp = self.root.guppy.heapy.Use
        if 'root' not in self.settings:
            hp.View.root = ROOTS[0]
            self.settings['root'] = 0
        return hp

    def got(self, m, n, x, route):
        need(shape(x) == refshape(m, n) or (m, n) in CHG, 'shape', lambda: '%s.%s of session %d is %r, but should be like %r' % (m, n, self.i, shape(x), refshape(m, n)))
        key = (m, n)
        for _ in range(5):
            key = ALIAS.get(key, key)
        if key in CHG:
            return
        y = x._share if isinstance(x, Glue.Interface) else x
        if isinstance(x, types.MethodType) and isinstance(x.__self__, Glue.Interface):
            y = Bound((x.__func__, x.__self__._share))
        if key in self.parts:
            z = self.parts[key][0]
            need(z is y or type(z) is type(y) is Bound and z == y, 'twice', lambda: '%s.%s (route %d) is not the same object as %s.%s had been (route %d)' % ((m, n, route) + self.parts[key][1:]))
        else:
            self.parts[key] = y, m, n, route


REARM = []


def on_sigint(sig, frame):
    if frame.f_code in SIMCODES:
        # the real locks are not interrupted
        REARM.append(1)
        interp.arm(interp.SIGINT, 1, 0)
    else:
        c12.on_sigint(sig, frame)


def creating():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.endswith('Glue.py'):
            return True
        if f.f_code.co_name == 'enter':
            return False
        f = f.f_back
    return False


def faulty(w, f, fault):
    """-> name of exception or None, result"""
    if fault is None:
        return None, f()
    kind, at = fault
    fired = False
    exc = res = None
    del w.unr[:], c12.MASKED[:], REARM[:]
    hit = []
    try:
        try:
            if kind == 'int':
                interp.arm(interp.SIGINT, at, 0)
                res = f()
            elif kind == 'raise':
                def boom(*a):
                    # in a creation, and not in what it may do to clean up
                    if hit or not creating():
                        return
                    hit.append(1)
                    raise Boom('simulated')
                interp.arm(interp.HOOK, at, 1, boom, interp.GUPPY + '/heapy')
                res = f()
            else:
                n = [0]

                def imp(name, *a):
                    n[0] += 1
                    if n[0] == at:
                        hit.append(1)
                        raise [ImportError('simulated'), Boom('simulated'), MemoryError('simulated')][kind == 'imp2']
                    return __import__(name, *a)
                Glue.__import__ = imp
                try:
                    res = f()
                finally:
                    del Glue.__import__
            for _ in range(3):
                pass
        finally:
            if kind in ('int', 'raise'):
                fired = interp.disarm() >= (1 if REARM else at)
            if kind != 'int':
                fired = bool(hit)
    except KeyboardInterrupt:
        exc = 'interrupt'
    except (Boom, ImportError, MemoryError) as e:
        if 'simulated' not in str(e):
            raise
        exc = 'raise'
    except Violation:
        raise
    except BaseException as e:
        if fired:
            raise Violation('other-exception', 'when it was interrupted or failed, %s was raised: %.300s' % (type(e).__name__, ''.join(traceback.format_exception(e))[-900:]))
        raise
    if fired:
        w.ctx.fault({'int': 'interrupt', 'raise': 'failing_creation', 'imp': 'failing_import', 'imp2': 'failing_import'}[kind])
        want = 'interrupt' if kind == 'int' else 'raise'
        if exc != want and not (w.unr or c12.MASKED or kind == 'raise'):
            raise Violation('swallowed', '%s did not reach the caller' % want)
    return exc, res


class W:
    pass


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = W()
    w.ctx = ctx
    w.unr = []
    sys.unraisablehook = lambda u: w.unr.append(u.exc_type)
    for k in USES:
        ref({'root': 0}, k)
    gc.collect()
    cb = len(gc.callbacks)
    S = [Session(ctx, i) for i in range(cfg['n'])]
    failed = []
    extra = []
    for op in plan['ops']:
        ctx.step()
        o = op[0]
        if o == 'par':
            par(w, S, op)
            continue
        if o == 'gc':
            gc.collect()
            ctx.log('gc')
            continue
        s = S[op[1] % len(S)]
        if o == 'get':
            _, _, k, route, fault = op
            m, n = NAMES[k % len(NAMES)]
            exc, x = faulty(w, lambda: fetch(s.root, route, m, n), fault)
            ctx.log('get', s.i, m, n, route, exc)
            ctx.state('get', m, n, exc, fault and fault[0])
            if exc is not None:
                # try again
                x = fetch(s.root, route, m, n)
                failed.append((s, m))
            s.got(m, n, x, route)
        elif o == 'clause':
            # the names of an import clause, in a session whose first access to them fails
            _, _, k, j, route, fault = op
            m, names = CLAUSES[k % len(CLAUSES)]
            names = [n for n in names if (m, n) in NAMESET]
            if not names:
                continue
            s = Session(ctx, len(S) + len(extra))
            extra.append(s)
            n = names[j % len(names)]
            exc, x = faulty(w, lambda: fetch(s.root, route, m, n), fault)
            ctx.log('clause', m, n, exc)
            ctx.state('clause', m, n, exc, fault and fault[0])
            names = names[j % len(names):] + names[:j % len(names)]
            for n in names if exc is not None or fault is None else names[1:]:
                s.got(m, n, fetch(s.root, route, m, n), route)
        elif o == 'use':
            _, _, k, fault = op
            k = sorted(USES)[k % len(USES)]
            exc, x = faulty(w, lambda: USES[k](s.hp), fault)
            ctx.log('use', s.i, k, exc)
            ctx.state('use', k, exc, fault and fault[0], len(s.settings))
            if exc is not None:
                hp = s.hp
                x = USES[k](hp)
            checkuse(s, k, x)
        elif o == 'set':
            _, _, a, v, fault = op
            a = sorted(SETTINGS)[a % len(SETTINGS)]
            v = SETTINGS[a][v % len(SETTINGS[a])]
            hp = s.hp
            exc, x = faulty(w, lambda: apply(hp, a, v), fault)
            need(hp.View.root is hp.View.hv.root, 'root', 'the root of the view is not the one of the session')
            if exc is not None:
                apply(hp, a, v)
            s.settings[a] = 1 + s.settings['root'] if a == 'rel' and v else v
            ctx.log('set', s.i, a, v, exc)
        else:
            raise HarnessError(o)
    # all that is in use is like that of a session nothing happened to
    for s in S:
        for k in sorted(USES):
            if (len(k) + cfg['mseed']) % 3 == 0 or cfg['full']:
                checkuse(s, k, USES[k](s.hp))
        for m, n in NAMES:
            if (len(n) + cfg['mseed']) % 4 == 0 or cfg['full'] or (s, m) in failed:
                for route in (0, 3):
                    s.got(m, n, fetch(s.root, route, m, n), route)
        ctx.log('end', s.i, len(s.parts))
    ids = {}
    for s in S + extra:
        for key, (y, m, n, r) in s.parts.items():
            if shape(y)[0] == 'o' and not isinstance(y, Bound) and type(y).__flags__ & 512 and type(y).__module__.startswith('guppy'):
                if id(y) in ids and ids[id(y)] is not s:
                    raise Violation('shared', '%s.%s is the same object in two sessions' % (m, n))
                ids[id(y)] = s
    for s in S:
        need(s.root.guppy.heapy.View.hv.limitframe is None, 'limitframe', 'a frame limit is left behind')
    simrt.check()


def checkuse(s, k, x):
    want = ref(s.settings, k)
    got = canon(x)
    need(got == want, 'use:' + k, lambda: '%s in session %d with %r is\n%.900s\nbut in a session of its own\n%.900s' % (k, s.i, s.settings, text(got), text(want)))


def text(x):
    return x if isinstance(x, str) else '\n'.join(map(str, x))


def par(w, S, op):
    """several threads get parts at the same time"""
    _, gets, points, faults = op
    fns = []
    for si, k, route in gets:
        s = S[si % len(S)]
        m, n = NAMES[k % len(NAMES)]
        refshape(m, n)
        fns.append(lambda s=s, m=m, n=n, route=route: fetch(s.root, route, m, n))
    thr = SCHED.run(fns, points, faults, w.ctx)
    w.ctx.log('par', gets, SCHED.trace, [type(t.exc).__name__ for t in thr])
    w.ctx.fault('preemption', SCHED.switches - len(thr))
    for t, (si, k, route) in zip(thr, gets):
        s = S[si % len(S)]
        m, n = NAMES[k % len(NAMES)]
        if t.exc is not None:
            if isinstance(t.exc, Boom):
                w.ctx.fault('failing_creation')
                need(t.i in SCHED.fired, 'other-thread', 'the failure in one thread was raised in another')
                continue
            raise Violation('thread', 'getting %s.%s while other threads do so raised\n%s' % (m, n, ''.join(traceback.format_exception(t.exc))[-1200:]))
        w.ctx.state('par', len(thr), m, min(SCHED.switches, 20))
        s.got(m, n, t.res, route)


# ---------------------------------------------------------------------------

def gen(rng, tier):
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), n=rng.choice([1, 1, 2, 2, 3]), full=rng.random() < .15)
    ops = []
    hot = [rng.randrange(10000) for _ in range(4)]

    def k():
        return rng.choice(hot) if rng.random() < .4 else rng.randrange(10000)

    def fault(p):
        if rng.random() > p:
            return None
        kind = rng.choice(['int', 'int', 'raise', 'raise', 'imp', 'imp2', 'imp2'])
        return [kind, rng.choice([rng.randrange(1, 12), rng.randrange(1, 80), rng.randrange(1, 600), rng.randrange(1, 4000)]) if kind[:3] != 'imp' else rng.randrange(1, 8)]
    for _ in range(rng.choice([1, 3, 6, 12, 20])):
        x = rng.random()
        si = rng.randrange(4)
        if x < .12:
            ops.append(['clause', 0, rng.randrange(10000), rng.randrange(20), rng.randrange(128), fault(.95)])
        elif x < .4:
            ops.append(['get', si, k(), rng.randrange(128), fault(.4)])
        elif x < .65:
            ops.append(['use', si, rng.randrange(1000), fault(.5)])
        elif x < .75:
            ops.append(['set', si, rng.randrange(100), rng.randrange(6), fault(.2)])
        elif x < .8:
            ops.append(['gc'])
        else:
            nt = rng.choice([2, 2, 3, 5, 11])
            one = k() if rng.random() < .6 else None
            hi = rng.choice([30, 200, 2000])
            ops.append(['par', [[si if rng.random() < .7 else rng.randrange(4), k() if one is None else one, rng.randrange(128)] for _ in range(nt)],
                        sorted({rng.randrange(1, hi) for _ in range(rng.choice([1, 2, 5, 20, 60]))}), [rng.randrange(1, hi)] if rng.random() < .2 else []])
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    for i, op in enumerate(plan['ops']):
        if op[0] == 'par':
            for f, cut in ((1, 2), (2, 0), (3, 0)):
                for j in range(len(op[f])):
                    if len(op[f]) > cut:
                        o = list(op)
                        o[f] = op[f][:j] + op[f][j + 1:]
                        yield dict(cfg=plan['cfg'], ops=plan['ops'][:i] + [o] + plan['ops'][i + 1:])
