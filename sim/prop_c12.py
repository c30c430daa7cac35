"""C12: analyses interrupted at any point, and what comes after them, against a
twin of the process in which the interrupted analyses were never started."""
import gc, sys, os, io, json, types, re, signal, weakref, tracemalloc
from functools import partial
import simrt, interp, graphworld as gw
from simctx import Violation, HarnessError, need

BASE = ['Type', 'Clodo', 'Id', 'Size', 'Unity', 'Module', 'Rcs', 'Via']


def setup():
    global hp, V, WARM
    from guppy import hpy
    gc.collect()
    gc.disable()
    hp = hpy()
    V = hp.View
    gw.basics()
    if WARM:
        V.root = H = [[{}, [[]], (1, 2)], types.ModuleType('m'), 'root']

        class w:
            R = H[0]
            known = {}

            @staticmethod
            def nodes():
                return [H, H[0], H[0][0], H[0][1], H[0][1][0]]
        hp.heap()
        for a in ANALYSES:
            for i in range(12):
                canon(w, run_one(w, [a, i, i // 2]))
        hp.setref(hp.Nothing)
        V.clear_retainers()
        V.root = V.heapyc.RootState
    gc.collect()
    interp.setup()
    M = sys.monitoring
    M.use_tool_id(4, 'raise')
    M.register_callback(4, M.events.RAISE, on_raise)
    signal.signal(signal.SIGINT, on_sigint)


MASKED = []


def on_sigint(sig, frame):
    """see whether the exception reaches the code that was interrupted"""
    del MASKED[:]
    sys.monitoring.set_events(4, sys.monitoring.events.RAISE)
    raise KeyboardInterrupt


def on_raise(code, off, e):
    if code is on_sigint.__code__:
        return
    sys.monitoring.set_events(4, 0)
    # CPython itself loses it in int('x'): PyLong_FromString handles the signal
    # while formatting the message, and its caller formats another one
    if isinstance(e, ValueError) and str(e).startswith('invalid literal for int()'):
        MASKED.append(1)


WARM = True


# -- analyses: each gives something that canon() can put into words --------

def pick(w, i):
    ns = w.nodes()
    return ns[i % len(ns)]


def picks(w, i, n=3):
    ns = w.nodes()
    return [ns[(i * 7 + k * 5) % len(ns)] for k in range(n)]


def idset(w, i):
    return hp.idset(picks(w, i, 1 + i % 6))


def a_heap(w, i, j):
    return hp.heap()


def a_heapstr(w, i, j):
    return str(hp.heap())


def a_by(w, i, j):
    s = hp.heap() if i % 3 == 0 else idset(w, i)
    s = s.by(BASE[j % len(BASE)])
    return [repr(s), s.count, s.size]


def a_bykey(w, i, j):
    s = idset(w, i)
    return repr([s.byclodo, s.bysize, s.byunity, s.bytype, s.byrcs, s.byvia, s.bymodule][j % 7])


def a_derived(w, i, j):
    s = idset(w, i)
    er = [lambda: hp.Clodo.dictof, lambda: hp.Type.refdby, lambda: hp.Rcs.dictof, lambda: hp.Type & hp.Size,
          lambda: hp.Size.refdby, lambda: hp.Clodo.refdby.dictof][j % 6]()
    return repr(s.by(er))


def a_kinds(w, i, j):
    s = idset(w, i)
    k = s.by(BASE[(0, 1, 4)[j % 3]])[0].kind
    return [hp.idset(w.nodes()) & k, repr(k)]


def a_referrers(w, i, j):
    return hp.iso(pick(w, i)).referrers


def a_referents(w, i, j):
    return idset(w, i).referents


def a_imdom(w, i, j):
    return hp.iso(pick(w, i)).imdom


def a_dominos(w, i, j):
    s = idset(w, i)
    return [s.dominos, s.domisize, s.indisize]


def a_owners(w, i, j):
    return repr(hp.idset(w.nodes()).by(hp.Clodo)) + str(V.dict_ownership.is_mapping)


def a_shpaths(w, i, j):
    p = hp.iso(pick(w, i)).shpaths
    n = p.numpaths
    return [n, [str(p[k]) for k in range(min(n, 4))], str(p)]


def a_getshp(w, i, j):
    x = hp.iso(pick(w, i))
    src = hp.iso(pick(w, j))
    p = x.get_shpaths(src)
    return [p.numpaths, str(p)]


def a_avoided(w, i, j):
    p = hp.iso(pick(w, i)).shpaths
    if p.numpaths and len(p[0].path) > 3:
        q = p.avoided(j % 2)
        return [q.numpaths, str(q)]
    return 0


def a_rp(w, i, j):
    s = hp.iso(pick(w, i))
    return str(s.rp if j % 2 else s.get_rp(2 + j % 3))


def a_render(w, i, j):
    s = hp.iso(pick(w, i))
    return [str(s), s.count, str(idset(w, i))]


def a_stat(w, i, j):
    s = idset(w, i).stat
    b = io.StringIO()
    s.dump(b)
    t = b.getvalue().split('\n')
    return [str(s), [l for l in t if not l.startswith('.timemade')]]


def a_statdiff(w, i, j):
    a, b = idset(w, i).stat, idset(w, j).stat
    return str(a - b)


def a_page(w, i, j):
    s = hp.heap().by(BASE[j % 5])
    m = s.more
    t = [str(m), str(m.more) if i % 2 else str(m.all)]
    return t


def a_algebra(w, i, j):
    a, b = idset(w, i), idset(w, j)
    return [a & b, a | b, a - b, a ^ b, a <= b, a.isdisjoint(b) if hasattr(a, 'isdisjoint') else 0]


def a_setref(w, i, j):
    # the reference point itself is not kept
    try:
        hp.setrelheap()
        return hp.heap()
    finally:
        V._share        # nothing
        hp.relheap = hp.Nothing


def a_horizon(w, i, j):
    return len(V.horizon().news())


def a_domtuple(w, i, j):
    ns = picks(w, i, 3)
    return list(V.domisize_tuple([hp.iso(x) for x in ns]))


def a_findex(w, i, j):
    f = hp.findex(hp.Type(type(pick(w, i))), hp.Size(56))
    return repr(idset(w, j).by(f))


def a_biper(w, i, j):
    s = hp.idset(w.nodes())
    return repr(s.by(hp.iso(pick(w, i)).biper)) if j % 2 else repr(s.by(hp.Type(type(pick(w, i))).biper))


def a_reach(w, i, j):
    return V.retset(V.hv.reachable(V.immnodeset([pick(w, i)]), V.immnodeset([pick(w, j)])))


def a_doc(w, i, j):
    return str(hp.doc)[:300] + str(idset(w, i).doc)[:300]


def a_rmparts(w, i, j):
    s = hp.heap()
    return [s[0], s[1:3], s.theone if s.count == 1 else 0, s.parts[0].count]


def a_rg(w, i, j):
    V.update_referrers(V.immnodeset(picks(w, i, 2)))
    return hp.idset(picks(w, i, 2)).referrers


ANALYSES = sorted(k[2:] for k in globals() if k.startswith('a_'))


def run_one(w, op):
    return globals()['a_' + op[0]](w, op[1], op[2])


HEX = re.compile(r'0x[0-9a-f]+')


def strmap(f, r):
    return f(r) if isinstance(r, str) else [strmap(f, x) for x in r] if isinstance(r, list) else r


def canon(w, r, op=None):
    r = canon1(w, r)
    # objects that are otherwise equal are in the order of their addresses
    if op is not None and op[0] in ('page', 'by') and 'Id' in (BASE[op[2] % 5], BASE[op[2] % 8]):
        r = strmap(lambda t: re.sub(r'(?m)([0-9]\.[0-9] ).*$', r'\1', t), r)
    elif op is not None and op[0] == 'rp':
        r = sorted(re.sub(r':[^:]*$', '', re.sub(r'^.*\[.*?\] ', '', l)) for l in r.split('\n'))
    return r


def canon1(w, r):
    if isinstance(r, str):
        return HEX.sub(lambda m: w.known.get(int(m.group(), 16), '#'), r)
    if isinstance(r, (list, tuple)):
        return [canon1(w, x) for x in r]
    if isinstance(r, (int, float)) or r is None:
        return r
    return sorted([w.known.get(id(o)) or type(o).__name__ for o in r.nodes])


# ---------------------------------------------------------------------------

class W(gw.GW):
    def __init__(self, ctx, cfg):
        gw.GW.__init__(self, ctx, V, hp, cfg)
        self.H = [self.R, 'root']
        V.root = self.H
        self.boom = bytearray(2)
        self.known = {}
        self.lost = False


SZ = {'__builtins__': {'Z': ZeroDivisionError}}
exec("def sizeof(self, boom, n):\n"
     " if boom[0]:\n  boom[0] -= 1\n  if boom[0] == 0:\n   boom[1] = 1\n   raise Z\n return n\n", SZ)


def addsized(w, n):
    # no reference to anything outside of the world
    f = types.FunctionType(SZ['sizeof'].__code__, SZ, 'sizeof', (w.boom, 56 + 8 * (n % 4)))
    o = type(w.name('X'), (), {'__sizeof__': f})()
    w.R.append(o)


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = W(ctx, cfg)
    ops = plan['ops']
    n = next((i for i, op in enumerate(ops) if op[0] == 'abort'), len(ops))
    unr = []
    sys.unraisablehook = lambda u: unr.append(u.exc_type)
    for op in ops[:n]:
        ctx.step()
        pre(w, op, ctx)
    collect(w)
    want = twin(w, ops[n:], ctx, unr)
    got = after(w, ops[n:], ctx, False, unr)
    if want is None:
        raise HarnessError('the twin failed')
    if isinstance(want, str):
        raise Violation('error-without', 'without the interrupted analyses: ' + want)
    for (k, a), (k2, b) in zip(want, got):
        if a != b:
            raise Violation('differs:' + str(k[0]), '%r after interrupted analyses gives\n%s\nbut without them\n%s' % (k, text(b), text(a)))
    need(len(want) == len(got), 'differs', 'number of results')
    need(V.root is w.H, 'root', 'the root is not what it was')
    need(V.hv.root is w.H, 'root', 'the root of the view is not what it was')
    need(V.hv.limitframe is None, 'limitframe', 'a frame limit is left behind')
    need(V.referrers_state.lock == 0, 'lock', 'the referrer lock is left locked')
    want = got = None


def release(w, ctx):
    """nothing of the world is kept"""
    refs = []
    for o in w.closure([w.R]).values():
        if type(o).__name__[0] == 'X' and not isinstance(o, type) and not w.hidden(o):
            try:
                refs.append(weakref.ref(o))
            except TypeError:
                pass
    o = None
    ctx.log('end', len(refs))
    w.R.clear()
    w.gens.clear()
    collect(w)
    return [type(r()).__name__ for r in refs if r() is not None]


def collect(w):
    """until nothing is left: caches of the analyser hold objects up to the next collection"""
    if w.lost:
        # the interrupt came in the callback that clears the caches at a
        # collection: they are cleared when they are to be used again
        hp.iso(w.H).referrers
        w.lost = False
    for _ in range(3):
        gc.collect()
    for o in w.nodes():
        simrt.dictof(o)         # looking at an object may make the interpreter create its dict
    w.known = {i: '%s%d' % (type(o).__name__, k) for k, (i, o) in enumerate(w.closure([w.H]).items())}


def text(x):
    s = json.dumps(x)
    return s if len(s) < 1500 else s[:1500] + '...'


def pre(w, op, ctx):
    if op[0] == 'do':
        canon(w, run_one(w, op[1:]))
        ctx.log('pre', *op)
    elif op[0] == 'sized':
        addsized(w, op[1])
        ctx.log(*op)
    elif w.do(op):
        ctx.log(*op)
    else:
        raise HarnessError(repr(op))


def after(w, ops, ctx, istwin, unr):
    res = []
    for op in ops:
        ctx.step()
        if op[0] == 'abort':
            if not istwin:
                abort(w, op, ctx, unr)
        elif op[0] == 'do':
            r = canon(w, run_one(w, op[1:]), op[1:])
            res.append([op[1:], r])
            ctx.log(*op, '' if istwin else json.dumps(r))
            ctx.state('after', getattr(w, 'aborted', None), op[1])
            r = None
        else:
            pre(w, op, ctx)
            collect(w)          # until then answers may be as of the last collection
    res.append([['released'], release(w, ctx)])
    simrt.check()
    return json.loads(json.dumps(res))


def twin(w, ops, ctx, unr):
    """the results without the interrupted analyses, from a fork of this process"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                from simctx import Ctx
                out = json.dumps(after(w, ops, Ctx(), True, unr))
            except BaseException:
                import traceback
                out = json.dumps(traceback.format_exc()[-1500:])
            out = out.encode()
            while out:
                out = out[os.write(wr, out):]
        finally:
            os._exit(0)
    os.close(wr)
    buf = []
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(b''.join(buf))
    except ValueError:
        return None


def abort(w, op, ctx, unr):
    """run an analysis with an interrupt in it"""
    _, a, i, j, how, at, every = op
    del unr[:], MASKED[:]
    fired = False
    got = None
    try:
        try:
            if how == 0:
                interp.arm(interp.SIGINT, at, 0)
                run_one(w, [a, i, j])
            elif how == 1:
                simrt.call(run_one, (w, [a, i, j]), None, 0, 0, at)
            else:
                w.boom[:] = at, 0
                run_one(w, [a, i, j])
            for _ in range(3):      # a signal from the last moment arrives here
                pass
        finally:
            if how == 0:
                fired = interp.disarm() >= at
            elif how == 1:
                fired = simrt.last()[2] > 0
            else:
                fired = w.boom[1] > 0
                w.boom[:] = 0, 0
            if a == 'setref':
                hp.relheap = hp.Nothing
    except KeyboardInterrupt:
        got = 'interrupt'
    except ZeroDivisionError:
        got = 'raise'
    except BaseException as e:
        got = type(e).__name__
        if fired:
            raise Violation('other-exception', '%s, interrupted, raised %s: %.200s' % (a, got, e)) from e
        raise
    want = None if not fired else 'raise' if how == 2 else 'interrupt'
    if got != want and not (got is None and (unr or MASKED)):
        raise Violation('swallowed', '%s was interrupted (%s), but %s was raised' % (a, want, got or 'nothing'))
    if unr:
        w.lost = True
    if fired:
        ctx.fault({0: 'interrupt', 1: 'signal_in_C', 2: 'raise'}[how])
        w.aborted = (a, how)
    ctx.log('abort', *op, got)


# ---------------------------------------------------------------------

MUT = dict(gw.WEIGHTS)


def gen(rng, tier):
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), deep=rng.choice([3, 20]))
    wts, kinds = gw.swarm(rng, MUT)
    # the order in a set depends on addresses; cycles through frames of generators are not collected
    kinds = [k for k in kinds if k not in ('set', 'frozenset', 'nodeset', 'nodegraph', 'frame')] or ['list']
    hid = rng.random() < .5
    # the class of a dictionary whose owner is hidden depends on what is in the referrer graph
    names = [a for a in ANALYSES if not (hid and a == 'derived')]
    ops = list(gw.genops(rng, rng.choice([2, 4, 8, 16]), kinds, wts, hid))
    sized = rng.random() < .4
    if sized:
        ops += [['sized', rng.randrange(4)] for _ in range(rng.choice([1, 2, 4]))]
    fam = rng.sample(names, rng.choice([2, 3, 6]))

    def r():
        return rng.choice([0, rng.randrange(4), rng.randrange(12), rng.randrange(200)])
    for _ in range(rng.choice([0, 0, 1, 3])):
        ops.append(['do', rng.choice(fam), r(), r()])
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(rng.choice([1, 1, 2])):
            how = rng.choice([0, 0, 0, 1] + [2] * sized)
            at = rng.choice([rng.randrange(1, 4), rng.randrange(1, 6)]) if how == 2 else \
                rng.choice([rng.randrange(1, 10), rng.randrange(1, 60), rng.randrange(1, 300), rng.randrange(1, 2000)])
            ops.append(['abort', rng.choice(fam), r(), r(), how, at, 0])
        if rng.random() < .2:
            ops.append(['gc'])
        if rng.random() < .2:
            ops += gw.genops(rng, 2, kinds, wts, hid)
        for _ in range(rng.choice([1, 2, 3])):
            ops.append(['do', rng.choice(fam if rng.random() < .7 else names), r(), r()])
    return dict(cfg=cfg, ops=ops)
