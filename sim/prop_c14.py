"""C14: analyses leave the program they look at as it was: what refers to what,
reference counts, deaths, and (when repeated) answers and memory."""
import gc, sys, os, array, json, types, weakref, collections
import simrt, interp, graphworld as gw, prop_c12 as p12
from prop_c04 import name
from simctx import Violation, HarnessError, need

MUTABLE = list, dict, set, tuple, frozenset


def setup():
    global hp, V
    p12.setup()
    hp, V = p12.hp, p12.V


class W(p12.W):
    def __init__(self, ctx, cfg):
        p12.W.__init__(self, ctx, cfg)
        self.dead = []          # the numbers of the objects that died
        self.watched = {}       # number -> weak reference
        self.by = {}            # address -> number
        self.nwatched = 0
        self.held = []
        self.sig = []           # what operations choose from

    def do(self, op):
        # looking at an object may make the interpreter create its dict: let them have it
        for o in self.nodes():
            simrt.dictof(o)
        self.sig.append(' '.join(type(o).__name__ for o in self.nodes()))
        o = None
        return p12.W.do(self, op)

    def watch(self, objs):
        """tell the deaths of these"""
        for o in objs:
            if id(o) in self.by and self.watched[self.by[id(o)]]() is o:
                continue
            n = self.nwatched
            dead = self.dead

            def gone(r, n=n):
                dead.append(n)
            try:
                r = weakref.ref(o, gone)
            except TypeError:
                continue
            self.watched[n] = r
            self.by[id(o)] = n
            self.nwatched += 1


class Fin:
    """an object that is heard of when it dies"""


def addfin(w, n):
    fin = w.dead
    k = -1 - n

    T = type(w.name('X'), (), {'__slots__': ('a', '__weakref__')})
    f = types.FunctionType(FINCODE, {'__builtins__': {}}, 'die', (fin.append, k))
    T.__del__ = f
    o = T()
    o.a = w.R[-1] if w.R and n % 2 else None
    w.R.append(o)


def _die(self, tell, k):
    tell(k)


FINCODE = _die.__code__


class State:
    """what the world is like"""

    def __init__(self, w):
        gc.collect()
        gc.collect()
        p12.collect(w)
        c = w.closure([w.H])
        self.objs = [o for o in c.values() if w.isworld(o) or o is w.H]
        self.refs = {}
        self.indeg = {}
        for o in self.objs:
            r = list(map(id, w.refs(o)))
            self.refs[id(o)] = r
            for i in r:
                self.indeg[i] = self.indeg.get(i, 0) + 1
        c = None
        o = None
        objs = self.objs
        self.cnt = {id(x): n for x, n in zip(objs, map(simrt.refcnt, objs))}
        self.dead = len(w.dead)

    def extra(self):
        """references to the objects from outside of the world"""
        return {i: self.cnt[i] - self.indeg.get(i, 0) for i in self.cnt}

    def drop(self):
        self.objs = None


def same(w, a, b, what):
    """nothing has happened"""
    need(len(w.dead) == a.dead, 'died', lambda: '%s: %d objects died' % (what, len(w.dead) - a.dead))
    A, B = {id(o): o for o in a.objs}, {id(o): o for o in b.objs}
    for i in A:
        need(i in B, 'graph', lambda: '%s: %s has gone from the program' % (what, name(A[i])))
    for i in B:
        need(i in A, 'graph', lambda: '%s: %s is new in the program' % (what, name(B[i])))
    for i in A:
        need(a.refs[i] == b.refs[i], 'mutated', lambda: '%s: %s refers to other objects than before' % (what, name(A[i])))
    k = 0 if a is b else 1
    for i in A:
        # the lists of the two states refer to it
        p, q = a.cnt[i] + k, b.cnt[i]
        if p >= 1 << 30 or A[i] is w.H or isinstance(A[i], type):
            # immortal; the root of the session; kinds of types are remembered
            continue
        need(p == q, 'refcount', lambda: '%s: the reference count of %s went from %d to %d' % (what, name(A[i]), p, q))


def look(w, op, ctx, reps):
    """an analysis, some times"""
    _, a, i, j = op[:4]
    out = []
    for _ in range(reps):
        r = p12.run_one(w, [a, i, j])
        out.append(p12.canon(w, r, [a, i, j]))
        r = None
    return out


def settle(w):
    p12.collect(w)
    gc.collect()
    sys._clear_type_cache()
    return simrt.stats()[0]


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = W(ctx, cfg)
    want = twin(w, plan['ops'])
    if isinstance(want, str):
        raise Violation('error-without', 'a twin without analyses: ' + want)
    want, sig = want
    got = go(w, plan['ops'], ctx, False)
    if sig != w.sig:
        # the order of sets is that of addresses: the operations chose other objects
        ctx.log('diverged')
        ctx.probe('diverged')
        return
    ctx.probe('compared')
    for (k, a), (k2, b) in zip(want, got):
        need(k == k2, 'order', '%r %r' % (k, k2))
        c, d = collections.Counter(a), collections.Counter(b)
        need(not d - c, 'alive', lambda: '%r: kept alive by analyses: %s' % (k, dict(d - c)))
        need(not c - d, 'died', lambda: '%r: died because of analyses: %s' % (k, dict(c - d)))
    need(len(want) == len(got), 'order', 'number of results')
    need(len(set(w.dead)) == len(w.dead), 'twice', 'an object has died twice')
    ctx.log('dead', len(w.dead))
    simrt.check()


def twin(w, ops):
    """who lives when nothing is analysed, from a fork of this process"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                from simctx import Ctx
                out = json.dumps([go(w, ops, Ctx(), True), w.sig])
            except BaseException:
                import traceback
                out = json.dumps(traceback.format_exc()[-1500:])
            out = out.encode()
            while out:
                out = out[os.write(wr, out):]
        finally:
            os._exit(0)
    os.close(wr)
    with open(r, 'rb') as f:
        buf = f.read()
    os.waitpid(pid, 0)
    if not buf:
        raise HarnessError('the twin died')
    return json.loads(buf)


def go(w, ops, ctx, twin):
    """do it all, and tell who of the watched lives, now and then"""
    out = []
    unr = []
    sys.unraisablehook = lambda u: unr.append('%s in %s' % (u.exc_type.__name__, u.object))
    for n, op in enumerate(ops):
        ctx.step()
        k = op[0]
        if k == 'fin':
            addfin(w, n)
            ctx.log(*op)
        elif k == 'sized':
            p12.addsized(w, op[1])
            ctx.log(*op)
        elif k == 'watch':
            p12.collect(w)
            w.watch([o for o in w.closure([w.H]).values() if w.isworld(o)])
            ctx.log('watch', w.nwatched)
        elif k == 'look':
            if not twin:
                once(w, op, ctx)
        elif k == 'again':
            if not twin:
                again(w, op, ctx)
        elif k == 'hold':
            if not twin:
                hold(w, op, ctx)
        elif k == 'drop':
            w.held.clear()
            settle(w)
            out.append([[n] + op, alive(w)])
            ctx.log(*op)
        elif k == 'during':
            if twin:
                for m in op[5]:
                    w.do(m)
            else:
                during(w, op, ctx)
            settle(w)
            if not w.held:
                out.append([[n] + op, alive(w)])
        elif k == 'full':
            if not twin:
                full(w, op, ctx)
        elif w.do(op):
            ctx.log(*op)
        else:
            raise HarnessError(repr(op))
        need(not unr, 'unraisable', lambda: '%r: %s' % (op, unr))
    w.held.clear()
    settle(w)
    out.append(['the end', alive(w)])
    left = p12.release(w, ctx)
    settle(w)
    out.append(['after the end', alive(w)])
    out.append(['after the end (others)', left])
    return out


def alive(w):
    return sorted(type(o).__name__ + ' ' + getattr(o, '__name__', '') for o in [r() for r in w.watched.values()]
                  if o is not None and not remains(o))


def remains(o):
    # types may be remembered; templates of the harness
    return isinstance(o, type) or isinstance(o, types.FunctionType) and o.__name__ in ('sizeof', 'die')


def once(w, op, ctx):
    """one analysis whose results are dropped, maybe with collections in it"""
    gcs = op[4]
    settle(w)
    if w.held:
        w.held.clear()
    a = State(w)
    if gcs:
        interp.arm(interp.GC, 1 + gcs % 97, (60 if op[1] == 'page' else 10) + gcs % 390)
    try:
        r = p12.run_one(w, op[1:4])
    finally:
        if gcs:
            interp.disarm()
            ctx.fault('gc')
    died = len(w.dead) - a.dead
    need(not died, 'died', lambda: '%r: %d objects died during it' % (op, died))
    r = None
    settle(w)
    b = State(w)
    same(w, a, b, '%s %r' % (op[1], op[2:4]))
    ctx.log(*op, len(a.objs))
    ctx.state('look', op[1], len(a.objs).bit_length(), bool(gcs))
    a.drop()
    b.drop()


def again(w, op, ctx):
    """an analysis again and again: the same answer, and no more memory"""
    w.held.clear()
    settle(w)
    want = None
    grow = []
    for k in range(3 + op[4]):
        n = settle(w)
        got = look(w, op, ctx, 1)
        got = json.loads(json.dumps(got))
        if k == 1:
            want = got
        elif k > 1:
            need(got == want, 'differs', lambda: '%s %r gives, the %d. time\n%s\nand before\n%s' % (op[1], op[2:4], k + 1, p12.text(got), p12.text(want)))
        got = None
        grow.append(settle(w) - n)
    want = None
    if min(grow[3:] or [0]) > 0:
        # does it go on like that?
        more = []
        for k in range(12):
            n = settle(w)
            look(w, op, ctx, 1)
            more.append(settle(w) - n)
        need(min(more[3:]) <= 0, 'accumulates', lambda: '%s %r leaves %r blocks each time' % (op[1], op[2:4], more))
    ctx.log(*op)
    ctx.state('again', op[1], op[4])


def hold(w, op, ctx):
    """the results stay for a while"""
    r = p12.run_one(w, op[1:4])
    w.held.append(r)
    if op[4] % 3 == 0 and len(w.held) > 1:
        del w.held[0]
    ctx.log(*op)


def during(w, op, ctx):
    """the program goes on while it is analysed: whatever comes out, nothing is lost or kept"""
    w.held.clear()
    settle(w)
    mut = op[5]
    n = [0]

    def hook(*_):
        if n[0] < len(mut):
            n[0] += 1
            w.do(mut[n[0] - 1])
    e = None
    interp.arm(interp.HOOK, op[4], 40 + op[4] % 300, hook)
    try:
        p12.run_one(w, op[1:4])
    except Exception as x:
        e = type(x).__name__
    finally:
        interp.disarm()
    for m in mut[n[0]:]:
        w.do(m)
    ctx.fault('mutation', n[0])
    V.root = w.H
    settle(w)
    ctx.log('during', op[1], n[0], e)
    ctx.state('during', op[1], n[0], e)
    if n[0]:
        # and the analyser is as good as before
        ids = {id(o) for o in hp.heap().nodes}
        have = w.closure([w.H])
        need(ids == set(have), 'wrong', lambda: 'after %s during which the program went on, a snapshot has %d objects and not %d' % (op[1], len(ids), len(have)))


def full(w, op, ctx):
    """all that the interpreter has"""
    V.root = V.heapyc.RootState
    try:
        # no object of the harness may come or go
        ans = array.array('q', [-1] * 8)
        f = FULL[op[1] % len(FULL)]
        s = x = k = None
        for k in ROUNDS:
            s = hp.heap()
            x = f(s)
            ans[k] = len(s.nodes)
            ans[k + 4] = x
            s = x = None
            settle(w)
        need(ans[2] == ans[3] and ans[6] == ans[7], 'differs', lambda: 'the same snapshot has %r' % ans.tolist())
    finally:
        V.root = w.H
    ctx.log('full', op[1])
    ctx.state('full', op[1] % len(FULL))


ROUNDS = 0, 1, 2, 3

FULL = [
    lambda s: 0,
    lambda s: len(s.bytype),
    lambda s: s.bytype.size,
    lambda s: len(s.byclodo),
    lambda s: s.bysize.count,
    lambda s: len(s.stat),
]

ANALYSES = p12.ANALYSES


def gen(rng, tier):
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30))
    wts, kinds = gw.swarm(rng)
    ops = list(gw.genops(rng, rng.choice([3, 8, 15, 30, 60]), kinds, wts))
    few = rng.sample(ANALYSES, rng.choice([1, 3, len(ANALYSES)]))

    def ana():
        return [rng.choice(few), rng.choice([rng.randrange(8), rng.randrange(60)]), rng.randrange(64)]

    def at():
        # most of the time when there is something
        return rng.randrange(len(ops) // 3, len(ops) + 1)
    for _ in range(rng.choice([0, 1, 3])):
        ops.insert(at(), ['fin', rng.randrange(100)])
    for _ in range(rng.choice([0, 0, 2])):
        ops.insert(at(), ['sized', rng.randrange(4)])
    for _ in range(rng.choice([1, 2, 4, 6])):
        k = rng.random()
        if k < .35:
            ops.insert(at(), ['look'] + ana() + [rng.choice([0, rng.randrange(1, 3000)])])
        elif k < .5:
            ops.insert(at(), ['again'] + ana() + [rng.choice([1, 3, 5])])
        elif k < .75:
            p = at()
            ops.insert(p, ['hold'] + ana() + [rng.randrange(6)])
            ops.insert(rng.randrange(p + 1, len(ops) + 1), ['drop'])
        elif k < .97:
            ops.insert(at(), ['during'] + ana() + [rng.choice([rng.randrange(1, 40), rng.randrange(1, 600)]), list(gw.genops(rng, rng.choice([1, 2, 5]), kinds, wts))])
        else:
            ops.insert(at(), ['full', rng.randrange(12)])
    for _ in range(rng.choice([1, 2, 3])):
        ops.insert(at(), ['watch'])
    return dict(cfg=cfg, ops=ops)
