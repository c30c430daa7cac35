"""C04: snapshots and reachability queries against an independent reading of
the object graph, through histories of mutation, collection, class churn,
hidden objects and earlier snapshots."""
import gc, sys
import simrt, graphworld as gw
from simctx import Violation, HarnessError, need


def setup():
    global hp, V
    from guppy import hpy
    gc.collect()
    gc.disable()
    hp = hpy()
    V = hp.View
    gw.basics()
    V.root = []
    hp.heap()
    V.hv
    hp.iso(1).nodes, hp.idset([1]), hp.Type(int)
    repr(hp.heap())
    V.root = V.heapyc.RootState


def name(o):
    try:
        return '%s %.60s' % (type(o).__name__, ascii(o) if type(o) in (str, int, tuple, list, dict) else
                             getattr(o, '__name__', '')) if type(o).__name__ != 'dict' or len(o) < 5 else 'dict'
    except Exception:
        return type(o).__name__


def compare(what, got, want, w):
    """got: iterable of objects (a node set); want: id -> object"""
    n = 0
    seen = set()
    for o in got:
        i = id(o)
        n += 1
        need(i not in seen, 'duplicate', '%s: an object is there twice' % what)
        seen.add(i)
        if i not in want:
            raise Violation('too-much', '%s: contains %s which is not reachable or should be hidden%s' % (
                what, name(o), ' (hidden)' if w.hidden(o) else ''))
    o = None
    if n != len(want):
        miss = [want[i] for i in want if i not in seen]
        raise Violation('missing', '%s: lacks %d objects, such as %s' % (what, len(miss), name(miss[0])))
    need(len(got) == n, 'wrong-count', '%s: has length %d but %d members' % (what, len(got), n))


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = gw.GW(ctx, V, hp, cfg)
    V.root = w.R
    hv = V.hv
    kept = []
    for op in plan['ops']:
        ctx.step()
        name_ = op[0]
        if w.do(op):
            ctx.log(*op, len(w.R))
            continue
        if name_ == 'heap':
            s = hv.heap() if op[1] % 3 else hp.heap().nodes
            want = w.closure([w.R])
            compare('heap', s, want, w)
            ctx.log('heap', len(want))
            ctx.state('heap', len(want).bit_length(), tuple(sorted({type(o).__name__[:1] for o in want.values()}))[:9])
            if op[1] % 5 == 0:
                # an observation that stays around, in the world
                kept.append(s)
                del kept[:-2]
        elif name_ in ('reach', 'reach_x'):
            ns = w.nodes()
            st = [ns[i % len(ns)] for i in op[1]]
            av = [ns[i % len(ns)] for i in op[2]]
            s = (hv.reachable if name_ == 'reach' else hv.reachable_x)(V.immnodeset(st), V.immnodeset(av))
            want = w.closure(st, av, name_ == 'reach_x')
            compare(name_, s, want, w)
            ctx.log(name_, len(want))
            ctx.state(name_, len(want).bit_length(), len(st), len(av))
        elif name_ in ('relimg', 'referents'):
            ns = w.nodes()
            st = [ns[i % len(ns)] for i in op[1]]
            st = [o for o in st if not w.hidden(o)]
            if name_ == 'relimg':
                s = hv.relimg(st)
            else:
                s = hp.idset(st).referents.nodes
            want = {id(r): r for o in st for r in w.refs(o) if not w.hidden(r)}
            compare(name_, s, want, w)
            ctx.log(name_, len(want))
        elif name_ == 'numedges':
            ns = w.nodes()
            a, b = ns[op[1] % len(ns)], ns[op[2] % len(ns)]
            if not w.hidden(a):
                n = hv.numedges(a, b)
                m = sum(r is b for r in w.refs(a))
                need(n == m, 'wrong-count', lambda: 'numedges from %s to %s gave %d, there are %d' % (name(a), name(b), n, m))
                ctx.log('numedges', n)
            a = b = None
        elif name_ == 'iterate':
            # the view as an iterable: everything in it, hidden objects may be passed over
            c = hv.cli_none().partition(hv)
            n = 0
            seen = set()
            want = w.closure([w.R])
            for k, v in c.items():
                for o in v:
                    if not w.hidden(o):
                        need(id(o) in want, 'too-much', lambda: 'iteration: %s' % name(o))
                        need(id(o) not in seen, 'duplicate', 'iteration gives an object twice')
                        seen.add(id(o))
            k = v = o = c = None
            need(len(seen) == len(want), 'missing', 'iteration of the view lacks objects')
            ctx.log('iterate', len(want))
        elif name_ == 'newhv':
            h2 = V.new_hv(_hiding_tag_=V._hiding_tag_, root=w.R)
            for c in w.he[3:]:
                h2.register__hiding_tag__type(c)
            for c in w.hexact[1:]:
                h2.register_hidden_exact_type(c)
            c = None
            compare('heap of a new view', h2.heap(), w.closure([w.R]), w)
            h2 = None
        elif name_ == 'full':
            full(w, hv, ctx, op)
        elif name_ == 'abort':
            # a snapshot that is aborted half-way (a signal handler raises)
            abort(w, hv, op)
        else:
            raise HarnessError('unknown op %r' % (op,))
        s = want = ns = st = av = None
    kept.clear()
    w.R.clear()
    gc.collect()
    simrt.check()


class Stop(Exception):
    pass


def abort(w, hv, op):
    import _thread, signal
    old = signal.getsignal(signal.SIGINT)

    def h(*a):
        raise Stop
    signal.signal(signal.SIGINT, h)
    try:
        try:
            simrt.call(hv.heap, (), None, 0, 0, op[1] + 1)
        except Stop:
            w.ctx.fault('signal')
        else:
            # the signal may have come after the last point where it is looked at
            try:
                for _ in range(3):
                    pass
            except Stop:
                pass
    finally:
        signal.signal(signal.SIGINT, old)


def full(w, hv, ctx, op):
    """the whole interpreter, from the real root"""
    V.root = V.heapyc.RootState
    sys.modules['xsim'] = m = type(sys)('xsim')
    m.R = w.R
    m = None
    try:
        f = sys._getframe()
        while f:
            f.f_code.co_varnames        # which the interpreter makes when asked
            f = f.f_back
        s = hv.heap() if op[1] % 2 else hp.heap().nodes
        got = {id(o): o for o in s}
        o = None
        roots = [sys.modules, sys.__dict__, __builtins__ if isinstance(__builtins__, dict) else __builtins__.__dict__]
        want = w.closure(roots)
        for i, o in want.items():
            if i not in got:
                # frames and what belongs to this function are changing all the time
                raise Violation('missing', 'the heap lacks %s reachable from a module' % name(o))
        top = w.closure(roots + list(hv.relimg([V.heapyc.RootState])))
        # the same set plus what the running frames hold
        for i, o in got.items():
            if i not in top:
                raise Violation('too-much', 'the heap contains %s which is not reachable' % name(o))
        o = None
        ctx.log('full', len(w.closure([w.R])))
        ctx.state('full')
    finally:
        s = got = want = top = o = None
        del sys.modules['xsim']
        V.root = w.R


# ---------------------------------------------------------------------

def gen(rng, tier):
    style = rng.random()
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), deep=rng.choice([3, 50, 50, 2000, 60000 if style < .1 else 50]))
    wts, kinds = gw.swarm(rng)
    ops = []

    def r():
        return rng.choice([0, rng.randrange(4), rng.randrange(12), rng.randrange(60), rng.randrange(1000)])
    for _ in range(rng.choice([1, 2, 4, 8])):
        ops += gw.genops(rng, rng.choice([1, 3, 6, 10]), kinds, wts)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['heap', 'heap', 'heap', 'reach', 'reach_x', 'relimg', 'referents', 'numedges', 'iterate', 'newhv', 'abort'])
            if k in ('heap', 'abort'):
                ops.append([k, rng.randrange(60)])
            elif k in ('reach', 'reach_x'):
                ops.append([k, [r() for _ in range(rng.choice([1, 1, 2, 4]))], [r() for _ in range(rng.choice([0, 1, 2, 4]))]])
            elif k in ('relimg', 'referents'):
                ops.append([k, [r() for _ in range(rng.choice([1, 1, 2, 4]))]])
            elif k == 'numedges':
                ops += [[k, r(), r()] for _ in range(5)]
            else:
                ops.append([k])
    ops.append(['heap', rng.randrange(60)])
    if rng.random() < .02:
        ops.append(['full', rng.randrange(4)])
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    c = plan['cfg']
    if c['deep'] > 3:
        yield dict(plan, cfg=dict(c, deep=3))
    if c['mode']:
        yield dict(plan, cfg=dict(c, mode=0))
