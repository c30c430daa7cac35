"""C09: horizons and reference points through histories of creations, deaths,
addresses used again, and horizons made and dropped in any order."""
import gc, sys, types, weakref, io, array, functools, itertools, operator, contextvars, os, _thread, _random
from collections import deque, OrderedDict, defaultdict
from functools import partial
import simrt, interp, graphworld as gw
from simctx import Violation, HarnessError, need
from prop_c04 import name, compare
from prop_c07 import fault


def setup():
    global hp, hp2, V, V2, HZ
    from guppy import hpy
    gc.collect()
    gc.disable()
    hp, hp2 = hpy(), hpy()
    V, V2 = hp.View, hp2.View
    gw.basics()
    V.root = V2.root = [[{}], types.ModuleType('m')]
    for h in hp, hp2:
        h.heap()
        h.View.horizon().news()
        h.setrelheap()
        repr(h.heap())
        h.setref(h.Nothing)
        h.heap()
    HZ = V.heapyc.Horizon
    interp.setup()
    V.root = V2.root = V.heapyc.RootState


# -- objects of the pool ------------------------------------------------

class XList(list):
    pass


class XDict(dict):
    pass


class XTuple(tuple):
    pass


class XDeque(deque):
    pass


class XODict(OrderedDict):
    pass


class XPartial(partial):
    pass


class XFloat(float):
    pass


class XInst:
    pass


class XSlots:
    __slots__ = 'p', '__weakref__'


class XExc(Exception):
    pass


class XBytesIO(io.BytesIO):
    pass


class XRandom(_random.Random):
    pass


class XDel:
    """a finalizer that acts"""

    def __del__(self):
        self.act(self)


def genf(x):
    yield x
    yield x


async def corf(x):
    return x


def inst(c, x):
    o = c()
    o.p = x
    return o


def func(x):
    def f(y=x):
        return x
    return f


def gen1(x):
    g = genf(x)
    next(g)
    return g


def tbexc(x):
    try:
        raise XExc(x)
    except XExc as e:
        return e


def module(x):
    m = types.ModuleType('m')
    m.p = x
    return m


def weak(x):
    return weakref.ref(x, partial(ignore, x))


def ignore(*a):
    pass


def deep(mk, n, x):
    for _ in range(n):
        x = mk(x)
    return x


def cor(x):
    c = corf(x)
    try:
        return [c]
    finally:
        c.close()


# name -> (make from payload, holds the payload)
POOL = {
    'list': lambda x: [x], 'tuple': lambda x: (x, 1), 'dict': lambda x: {'p': x}, 'set': lambda x: {x}, 'frozenset': lambda x: frozenset((x,)),
    'inst': lambda x: inst(XInst, x), 'slots': lambda x: inst(XSlots, x), 'xlist': lambda x: XList((x,)), 'xdict': lambda x: XDict(p=x),
    'xtuple': lambda x: XTuple((x,)), 'deque': lambda x: deque((x,)), 'xdeque': lambda x: XDeque((x,)), 'odict': lambda x: OrderedDict(p=x),
    'xodict': lambda x: XODict(p=x), 'ddict': lambda x: defaultdict(x), 'partial': lambda x: partial(x), 'xpartial': lambda x: XPartial(x),
    'stat': lambda x: os.stat_result([x] + list(range(9))), 'gen': gen1, 'gen0': genf, 'cell': types.CellType, 'func': func,
    'exc': XExc, 'valueerror': ValueError, 'tbexc': tbexc, 'method': lambda x: types.MethodType(ignore, x), 'module': module,
    'ns': lambda x: types.SimpleNamespace(p=x), 'proxy': lambda x: types.MappingProxyType({'p': x}), 'slice': lambda x: slice(x),
    'iter': lambda x: iter([x]), 'chain': lambda x: itertools.chain((x,)), 'cycle': lambda x: itertools.cycle((x,)),
    'getter': operator.itemgetter, 'property': property, 'static': staticmethod, 'class': lambda x: type('X', (), {'p': x}),
    'classs': lambda x: type('X', (), {'__slots__': (), 'p': x}), 'weak': weak, 'lru': lambda x: functools.lru_cache(x),
    'float': lambda x: float('1.5'), 'xfloat': lambda x: XFloat(2.5), 'int': lambda x: int('9' * 30), 'str': lambda x: '%s--' % 'a' * 7,
    'bytes': lambda x: bytes([1, 2, 3, 4]), 'bytearray': lambda x: bytearray(9), 'array': lambda x: array.array('i', [1]),
    'lock': lambda x: _thread.allocate_lock(), 'rlock': lambda x: _thread.RLock(), 'random': lambda x: _random.Random(3), 'xrandom': lambda x: XRandom(3),
    'bytesio': lambda x: io.BytesIO(), 'xbytesio': lambda x: XBytesIO(), 'stringio': lambda x: io.StringIO(), 'complex': lambda x: complex(0, float('2.5')),
    'ctx': lambda x: contextvars.Context(), 'mview': lambda x: memoryview(bytearray(3)), 'code': lambda x: compile('a', 'b', 'eval'),
    'bound': lambda x: [x].append, 'range': lambda x: range(10 ** 10), 'enumerate': lambda x: enumerate((x,)),
}
HOLDS = ['list', 'tuple', 'dict', 'set', 'frozenset', 'inst', 'slots', 'xlist', 'xdict', 'xtuple', 'deque', 'xdeque', 'odict', 'xodict', 'ddict',
         'partial', 'xpartial', 'stat', 'gen', 'gen0', 'cell', 'func', 'exc', 'valueerror', 'tbexc', 'method', 'module', 'ns', 'proxy', 'slice', 'iter', 'chain',
         'cycle', 'getter', 'property', 'static', 'class', 'classs', 'weak', 'lru', 'bound', 'enumerate']
CHAIN = ['list', 'tuple', 'dict', 'xlist', 'xdict', 'deque', 'xdeque', 'odict', 'xodict', 'ns', 'exc', 'static', 'cell', 'inst', 'xtuple', 'proxy', 'method']
DEEPSAFE = ['list', 'tuple', 'dict', 'xlist', 'xdict', 'odict', 'xodict', 'xtuple']      # those the interpreter itself can deallocate
ORDER = sorted(POOL)


class Payload:
    __slots__ = '__weakref__',

    def __call__(self, *a):
        pass


class Pool:
    """objects only we refer to: what every horizon must say is known exactly"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = []             # [serial, object, payload refs]
        self.ser = 0
        self.payload = Payload()
        self.base = simrt.refcnt(self.payload)
        self.hs = []            # [horizon, set of serials]
        self.over = False

    def new(self, kind):
        o = POOL[kind](self.payload)
        self.add(o)

    def add(self, o):
        self.ser += 1
        self.P.append((self.ser, o))

    def news(self, h):
        ns = h[0].news([o for s, o in self.P])
        want = [e for e in self.P if e[0] not in h[1]]
        for s, o in want:
            if o not in ns:
                raise Violation('missing', 'a new %s is not in the news of an earlier horizon' % type(o).__name__)
        if len(ns) != len(want):
            for s, o in self.P:
                if s in h[1] and o in ns:
                    raise Violation('too-much', 'the news contain a %s that existed before' % type(o).__name__)
            raise Violation('too-much', 'the news contain what they were not asked about')
        self.ctx.state('news', len(want).bit_length(), len(h[1]).bit_length(), len(self.hs))

    def horizon(self, which=None):
        es = list(self.P) if which is None else [self.P[i % len(self.P)] for i in which] if self.P else []
        h = [HZ([o for s, o in es]), {s for s, o in es}]
        self.hs.append(h)

    def act(self, k, i, o=None):
        """in a finalizer or callback"""
        if self.over:
            return
        self.ctx.fault('reentry')
        if k == 0:
            self.horizon()
        elif k == 1 and self.hs:
            del self.hs[i % len(self.hs)]
        elif k == 2 and self.hs:
            self.news(self.hs[i % len(self.hs)])
        elif k == 3:
            for j in range(4):
                self.new(ORDER[(i + j) % len(ORDER)])
        elif k == 4:
            del self.hs[:]
        elif k == 5 and self.P:
            self.drop(i)

    def drop(self, i):
        e = self.P.pop(i % len(self.P))

    def clear(self):
        self.P = []


class Fin:
    """resurrects itself once, or acts"""

    def __init__(self, pool, ser, k, i, err):
        self.a = pool, ser, k, i, err
        self.p = pool.payload

    def __del__(self):
        if not self.a:
            return
        pool, ser, k, i, err = self.a
        self.a = None
        try:
            if k == 6 and not pool.over:
                pool.P.append((ser, self))
                pool.ctx.fault('resurrect')
            else:
                pool.act(k, i)
        except Violation as e:
            err.append(e)


# -- the world -------------------------------------------------------------

class Ref:
    """what a reference point of the world must exclude"""

    def __init__(self, want):
        self.ids = dict.fromkeys(want, 'old')


class W(gw.GW):
    def __init__(self, ctx, cfg):
        gw.GW.__init__(self, ctx, V, hp, cfg)
        self.H = [self.R, 'root']
        V.root = V2.root = self.H
        self.refs_ = []
        self.zs = []

    def sync(self):
        """follow which of the objects of the reference points are still the same"""
        if not self.refs_:
            return
        c = self.closure([self.H])
        gens = {id(g) for g in self.gens}
        gens.update(self.closure([self.glob]))
        fresh = None
        for r in self.refs_:
            for i in list(r.ids):
                st = r.ids[i]
                if i not in c:
                    r.ids[i] = 'gone'
                elif st == 'gone':
                    if fresh is None:
                        fresh = {id(o) for o in self.nodes() if not (
                            id(o) in gens or type(o) in (tuple, frozenset) and all(type(x) is str for x in o) or
                            isinstance(o, type) and o.__name__[0] != 'X')}
                    if i in fresh:
                        # certainly another object, at the same address
                        self.ctx.probe('reused')
                        del r.ids[i]
                    else:
                        r.ids[i] = 'maybe'

    def check(self, what, got, ref):
        c = self.closure([self.H])
        seen = set()
        for o in got:
            i = id(o)
            if i not in c:
                raise Violation('too-much', '%s contains %s which is not in the heap' % (what, name(o)))
            if ref.ids.get(i) == 'old':
                raise Violation('too-much', '%s contains %s which was there at the reference point' % (what, name(o)))
            seen.add(i)
        for i, o in c.items():
            if i not in seen and i not in ref.ids:
                raise Violation('missing', '%s lacks a new %s' % (what, name(o)))
        need(len(got) == len(seen), 'wrong-count', '%s has a wrong length' % what)
        self.ctx.state(what, len(seen).bit_length(), len(c).bit_length())


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    pool = Pool(ctx)
    w = W(ctx, cfg)
    rel = {hp: None, hp2: None}
    err = []
    try:
        for op in plan['ops']:
            ctx.step()
            step(op, ctx, pool, w, rel, err)
            if err:
                raise err[0]
    finally:
        for e in pool.P:
            if type(e[1]) is Fin:
                e[1].a = None
        e = None
        for h in hp, hp2:
            h.setref(h.Nothing)
    pool.over = True
    pool.P = []
    gc.collect()
    n = simrt.refcnt(pool.payload)
    need(n == pool.base, 'lifetime', lambda: 'objects of the pool were not released completely: %d references' % (n - pool.base))
    w.zs = []
    w.R.clear()
    pool.hs = []
    gc.collect()
    simrt.check()


def step(op, ctx, pool, w, rel, err):
    k = op[0]
    if k == 'p':
        kind = op[1]
        for _ in range(op[2]):
            pool.new(kind)
    elif k == 'fin':
        f = Fin(pool, pool.ser + 1, op[1], op[2], err)
        pool.add(f)
        f = None
    elif k == 'wrcb':
        # a callback at the death of an object
        o = inst(XInst, pool.payload)
        pool.add(o)
        pool.wr = weakref.ref(o, partial(cb, pool, op[1], op[2], err))
        o = None
    elif k == 'deep':
        x = pool.payload
        ks = [POOL[q] for q in op[1]]
        for i in range(op[2]):
            x = ks[i % len(ks)](x)
        pool.add(x)
        x = None
    elif k == 'drop':
        for i in op[1]:
            if pool.P:
                pool.drop(i)
    elif k == 'dropf':
        # with failing allocations during the deaths
        if pool.P:
            i = op[1] % len(pool.P)
            if not any(type(e[1]) in (Fin, XInst, XDel) for e in pool.P):
                tail = pool.P[i:]
                del pool.P[i:]
                try:
                    simrt.call(tail.clear, (), None, op[2], op[3], 0)
                finally:
                    ctx.fault('nomem', simrt.last()[1])
                tail = None
    elif k == 'recycle':
        # die and be made again, probably where they were
        if pool.P:
            for i in op[1]:
                if pool.P:
                    pool.drop(i)
        for _ in range(op[3]):
            pool.new(op[2])
    elif k == 'cyc':
        # garbage in a cycle
        if pool.P:
            s, o = pool.P.pop(op[1] % len(pool.P))
            l = [o]
            l.append(l)
            o = l = None
        if op[2] % 2:
            gc.collect()
            ctx.fault('gc')
    elif k == 'gc':
        gc.collect()
        ctx.fault('gc')
        w.sync()
    elif k == 'hz':
        if op[2]:
            es = list(pool.P)
            xs = [o for s, o in es]
            try:
                h = simrt.call(HZ, (xs,), None, op[2], op[3], 0)
            except MemoryError:
                ctx.fault('nomem', simrt.last()[1])
            else:
                pool.hs.append([h, {s for s, o in es}])
            h = es = xs = None
        else:
            pool.horizon(op[1])
    elif k == 'hzbad':
        # an iterable that fails, having done things
        try:
            HZ(bad(pool, op[1], op[2]))
        except ZeroDivisionError:
            ctx.fault('raise')
        else:
            raise Violation('swallowed', 'a horizon of an iterable that raises')
    elif k == 'dropz':
        if pool.hs:
            del pool.hs[op[1] % len(pool.hs)]
    elif k == 'news':
        for h in pool.hs:
            pool.news(h)
        h = None
        if pool.hs and op[1]:
            h = pool.hs[op[2] % len(pool.hs)]
            xs = [o for s, o in pool.P]
            try:
                ns = simrt.call(h[0].news, (xs,), None, op[1], 1, 0)
            except MemoryError:
                ctx.fault('nomem', simrt.last()[1])
            else:
                n = sum(s not in h[1] for s, o in pool.P)
                need(len(ns) == n, 'wrong-count', 'news with little memory')
            xs = ns = h = None
    elif k == 'wref':
        # reference points of the world
        f = V.horizon if op[1] % 3 else raw
        gc.collect()
        w.sync()
        if not op[2]:
            h = f()
        else:
            h = fault(ctx, op[2], f)
        w.zs.append((h, Ref(w.closure([w.H]))))
        w.refs_.append(w.zs[-1][1])
        h = None
    elif k == 'wdrop':
        if w.zs:
            h, r = w.zs.pop(op[1] % len(w.zs))
            w.refs_ = [x for x in w.refs_ if x is not r]
            h = r = None
    elif k == 'wnews':
        if op[1]:
            gc.collect()        # so that a collection inside finds nothing more
        w.sync()
        for h, r in w.zs:
            if type(h) is HZ:
                w.check('news', h.news(V.hv.heap()), r)
            else:
                w.check('news', fault(ctx, op[1], h.news).nodes, r)
        h = r = None
    elif k == 'setref':
        h = [hp, hp2][op[1] % 2]
        gc.collect()
        w.sync()
        c = set(w.closure([w.H]))
        if op[2] % 4 == 0:
            h.setref(h.Nothing)
            rel[h] = None
        elif op[2] % 4 == 1:
            h.setref(h.heap())
            rel[h] = c - (rel[h] or set())
        else:
            fault(ctx, op[3], h.setrelheap)
            rel[h] = c
    elif k == 'heap':
        h = [hp, hp2][op[1] % 2]
        gc.collect()
        s = fault(ctx, op[2], h.heap)
        c = w.closure([w.H])
        for i in rel[h] or ():
            c.pop(i, None)
        compare('the relative heap', s.nodes, c, w)
        ctx.state('heap', len(c).bit_length(), rel[h] is None)
        s = c = None
    elif w.do(op):
        w.sync()
    else:
        raise HarnessError('unknown op %r' % (op,))
    ctx.log(k, len(pool.P), len(pool.hs), len(w.R), len(w.zs))


def raw():
    return HZ(V.hv.heap())


def cb(pool, k, i, err, wr):
    try:
        pool.act(k, i)
    except Violation as e:
        err.append(e)


def bad(pool, k, i):
    for s, o in list(pool.P):
        yield o
    s = o = None
    pool.act(k, i)
    1 / 0


# ---------------------------------------------------------------------

MUT = {k: v for k, v in gw.WEIGHTS.items() if k not in ('hchurn', 'rebase')}


def gen(rng, tier):
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), deep=rng.choice([3, 50]))
    ops = []
    kinds = rng.sample(ORDER, rng.choice([1, 2, 4, 8, len(ORDER)]))
    mem = rng.random() < .35        # failing allocations or callbacks, not both

    def r(n=1000):
        return rng.choice([0, rng.randrange(4), rng.randrange(n)])

    def some():
        return [r() for _ in range(rng.choice([1, 1, 2, 4, 8]))]

    def at():
        return [rng.choice([rng.randrange(1, 8), rng.randrange(1, 120)]), rng.choice([0, 0, 7]), int(rng.random() < .5)] if rng.random() < .3 else None

    def nomem():
        return (rng.choice([rng.randrange(1, 6), rng.randrange(1, 60)]), rng.choice([1, 1, 2, 20])) if mem and rng.random() < .5 else (0, 0)
    style = rng.random()
    if style < .7:
        for _ in range(rng.choice([4, 10, 25, 60])):
            k = rng.choices(['p', 'fin', 'wrcb', 'deep', 'drop', 'dropf', 'recycle', 'cyc', 'gc', 'hz', 'hzbad', 'dropz', 'news'],
                            [6, .7, .7, .6, 4, 1, 8, 2, 1, 5, .5, 2, 6])[0]
            if k == 'p':
                ops.append([k, rng.choice(kinds), rng.choice([1, 1, 2, 5])])
            elif k in ('fin', 'wrcb', 'hzbad'):
                if not mem:
                    ops.append([k, rng.randrange(7 if k == 'fin' else 6), rng.randrange(100)])
            elif k == 'deep':
                n = rng.choice([2, 10, 60, 300])
                ops.append([k, rng.sample(DEEPSAFE if n > 100 else CHAIN, rng.choice([1, 1, 2, 3])), n if n < 300 or rng.random() < .6 else 200000])
            elif k == 'drop':
                ops.append([k, some()])
            elif k == 'dropf':
                if mem:
                    ops.append([k, r()] + [rng.randrange(1, 4), rng.choice([1, 5, 50])])
            elif k == 'recycle':
                ops.append([k, some(), rng.choice(kinds), rng.choice([1, 2, 4, 9])])
            elif k == 'cyc':
                ops.append([k, r(), rng.randrange(4)])
            elif k == 'hz':
                ops.append([k, None if rng.random() < .7 else some(), *nomem()])
            elif k == 'dropz':
                ops.append([k, r()])
            elif k == 'news':
                ops.append([k, nomem()[0], r()])
            else:
                ops.append([k])
        ops.append(['news', 0, 0])
    if style > .6:
        wts, wk = gw.swarm(rng, MUT)
        wk = [k for k in wk]
        for _ in range(rng.choice([2, 4, 8])):
            ops += gw.genops(rng, rng.choice([1, 3, 6, 10]), wk, wts, hidden=False)
            for _ in range(rng.choice([1, 2, 3])):
                k = rng.choice(['wref', 'wref', 'wnews', 'wnews', 'wdrop', 'setref', 'heap', 'heap'])
                if k == 'wref':
                    ops.append([k, rng.randrange(6), at()])
                elif k == 'wnews':
                    ops.append([k, at()])
                elif k == 'wdrop':
                    ops.append([k, r()])
                elif k == 'setref':
                    ops.append([k, rng.randrange(2), rng.randrange(4), at()])
                else:
                    ops.append([k, rng.randrange(2), at()])
            if rng.random() < .5:
                ops.append(['clear', 0])
        ops.append(['wnews', None])
        ops.append(['heap', 0, None])
        ops.append(['heap', 1, None])
    return dict(cfg=cfg, ops=ops)
