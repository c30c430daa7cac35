"""C13: every operation of the compiled analyser with allocations failing at
chosen points: an error or the right answer, and nothing leaked or lost."""
import gc, sys, types
import simrt, graphworld as gw
from simctx import Violation, HarnessError, need
from prop_c04 import name


def setup():
    global hp, V, HC, TINFO
    from guppy import hpy
    import tracemalloc
    gc.collect()
    gc.disable()
    hp = hpy()
    V = hp.View
    HC = V.heapyc
    gw.basics()
    V.root = H = [[{}], types.ModuleType('m')]
    hp.heap()
    s = hp.idset([{}, [], H[1]])
    for k in 'Type Clodo Id Size Unity Rcs Via'.split():
        repr(s.by(k))
    dir(HC.RootState)
    hp.iso(1).nodes
    sys.unraisablehook = lambda u: None
    w = W(Log(), {})
    for op in gw.genops(__import__('random').Random(1), 12, BASICS):
        w.do(op)
    w.begin()
    for o in OPS:
        attempt(w, OPS[o], [3, 5, 7, 11], [[-2, 1], [-2, 1]], False)
    w.end()
    gc.collect()
    gc.freeze()


class Log:
    def __getattr__(self, a):
        return lambda *b: None


BASICS = ['list', 'tuple', 'dict', 'dictkey', 'set', 'inst', 'slots', 'func', 'closure', 'cell', 'gen', 'method', 'module', 'ns', 'exc', 'weakref', 'proxy', 'leaf', 'nodeset',
          'nodegraph', 'frame', 'instdict', 'class', 'frozenset', 'listsub', 'dictsub', 'deep', 'deadframe', 'h_idset', 'h_nodeset', 'h_inst', 'h_slot', 'h_exact', 'h_graph', 'h_kind', 'h_slotdict', 'h_iso']


class W(gw.GW):
    def __init__(self, ctx, cfg):
        gw.GW.__init__(self, ctx, V, hp, cfg)
        self.H = [self.R, 'root']
        V.root = self.H

    def begin(self):
        gc.collect()
        gc.collect()
        self.N = self.nodes()
        global IDS
        IDS = self.ids = frozenset(map(id, self.N))

    def end(self):
        self.N = None

    def hview(self):
        """a heap view like the one of a session"""
        hv = HC.HeapView(self.H, V.heapdefs)
        hv._hiding_tag_ = self.tag
        for t in self.hexact:
            hv.register_hidden_exact_type(t)
        for t in self.he:
            hv.register__hiding_tag__type(t)
        hv.is_hiding_calling_interpreter = V.hv.is_hiding_calling_interpreter
        return hv


# -- the operations ---------------------------------------------------------
# each: (w, hv, a) -> (callable, arguments, keywords, meaning of the result)

OPS = {}


def op(f):
    OPS[f.__name__[2:]] = f


def ids(s):
    return frozenset(id(o) for o in s)


def ng(s):
    return sorted((id(a), id(b)) for a, b in s)


def pick(w, a, n=1):
    return [w.N[(a + i * 7) % len(w.N)] for i in range(n)]


def nset(w, a, n):
    return V.immnodeset(pick(w, a, n)) if a % 2 else V.mutnodeset(pick(w, a, n))


@op
def o_heap(w, hv, a):
    return hv.heap, (), None, ids
@op
def o_reachable(w, hv, a):
    return hv.reachable, (nset(w, a[0], 1 + a[1] % 3), nset(w, a[2], a[3] % 4)), None, ids
@op
def o_reachable_x(w, hv, a):
    return hv.reachable_x, (nset(w, a[0], 1 + a[1] % 3), nset(w, a[2], a[3] % 4)), None, ids
@op
def o_allreach(w, hv, a):
    return hv.reachable, (V.immnodeset([w.H]), V.immnodeset([])), None, ids
@op
def o_relimg(w, hv, a):
    return hv.relimg, (nset(w, a[0], 1 + a[1] % 9) if a[2] % 2 else pick(w, a[0], a[1] % 9),), None, ids
@op
def o_numedges(w, hv, a):
    return hv.numedges, (pick(w, a[0])[0], pick(w, a[1])[0]), None, int
@op
def o_indisize(w, hv, a):
    return hv.indisize_sum, (nset(w, a[0], 1 + a[1] % 9) if a[2] % 3 else list(w.N),), None, int


@op
def o_relate(w, hv, a):
    # along a reference there is, most of the time
    o = pick(w, a[0])[0]
    r = [x for x in hv.relimg([o])]
    return hv.relate, (o, r[a[1] % len(r)] if r and a[2] % 8 else pick(w, a[1])[0]), None, rel


def rel(r):
    return [sorted(repr(x) if isinstance(x, (str, int)) else '@%d' % id(x) for x in t) for t in r]


@op
def o_shpathstep(w, hv, a):
    G = V.nodegraph()
    U = nset(w, a[0], 1 + a[1] % 4)
    S = V.mutnodeset([] if a[2] % 2 else pick(w, a[3], 2))
    avoid = V.nodegraph([(x, y) for x in pick(w, a[2], 2) for y in pick(w, a[1], 1)] if a[3] % 3 == 0 else None)
    return hv.shpathstep, (G, U, S, avoid, a[0] % 5 == 0) if a[3] % 2 else (G, U, S), None, lambda r: (ids(r), ng(G), ids(S))


@op
def o_shpaths(w, hv, a):
    """all levels, until there are none"""
    G = V.nodegraph()
    S = V.mutnodeset([w.H])
    U = V.immnodeset([w.H])
    lev = []
    for i in range(a[0] % 6):
        U = hv.shpathstep(G, U, S)
        lev.append(ids(U))
    return hv.shpathstep, (G, U, S), None, lambda r: (lev, ids(r), ng(G), ids(S))


@op
def o_update_referrers(w, hv, a):
    # for the objects given, all that reaches them
    G = V.nodegraph([(w.N[a[2] % len(w.N)], w.R)] if a[1] % 2 else None)
    G0 = ng(G)
    return hv.update_referrers, (G, nset(w, a[0], 1 + a[1] % 3)), None, lambda r: (G0, ng(G))


@op
def o_update_completely(w, hv, a):
    G = V.nodegraph()
    return hv.update_referrers_completely, (G,), None, lambda r: [x for x in ng(G) if x[0] in w.ids and x[1] in w.ids]


@op
def o_update_dictowners(w, hv, a):
    G = V.nodegraph()
    return hv.update_dictowners, (G,), None, lambda r: [x for x in ng(G) if x[0] in w.ids and x[1] in w.ids]


# classifiers

def rgof(w, hv):
    G = V.nodegraph()
    hv.update_referrers_completely(G)
    return G


TAGS = None
IDS = frozenset()


def cli(w, hv, k, d=0):
    """a classifier with empty memos"""
    global TAGS
    k = CLIS[k % len(CLIS)]
    if k == 'type':
        return hv.cli_type()
    if k == 'none':
        return hv.cli_none()
    if k == 'id':
        return hv.cli_id()
    if k == 'idset':
        return hv.cli_idset()
    if k == 'size':
        return hv.cli_indisize({})
    if k == 'prod':
        return hv.cli_prod({})
    if k == 'rcs':
        return hv.cli_rcs(rgof(w, hv), cli(w, hv, d // 16), {})
    if k == 'via':
        return hv.cli_inrel(rgof(w, hv), {}, {})
    if k == 'and':
        return hv.cli_and((cli(w, hv, d // 16), cli(w, hv, (d // 16) % 6 + 1), hv.cli_type()), {})
    if k == 'dictof':
        if TAGS is None:
            TAGS = V._parent.ImpSet.immnodeset([[]]), V._parent.ImpSet.immnodeset([[]])
        return hv.cli_dictof(V.nodegraph(), hv.cli_type(), *TAGS)
    if k == 'findex':
        c = hv.cli_indisize({})
        return hv.cli_findex(((hv.cli_type(), list, '=='), (c, 60, '<='), (c, 80, '!='), (hv.cli_type(), dict, '<=')), {})
    raise HarnessError(k)


CLIS = ['type', 'none', 'id', 'idset', 'size', 'rcs', 'via', 'and', 'dictof', 'findex', 'prod']


def kd(k):
    """a kind by what is in it"""
    if TAGS is not None and any(k is t for t in TAGS):
        return 'not a dict' if k is TAGS[0] else 'not owned'
    if id(k) in IDS:
        return '@%d' % id(k)
    if isinstance(k, (V.NodeSet, frozenset)):
        return 's', tuple(sorted(map(repr, map(kd, k))))
    if type(k) is tuple:
        return tuple(map(kd, k))
    if type(k).__name__ == 'Relation':
        return 'rel', k.kind, kd(k.relator)
    if isinstance(k, (int, str)):
        return repr(k)
    if isinstance(k, type):
        return '@%d' % id(k)
    return '?' + type(k).__name__       # made for the view


def part(r):
    return sorted((repr(kd(k)), sorted(map(id, v))) for k, v in r.items())


def epart(r):
    return sorted((repr(kd(k)), id(o)) for k, o in r)


def sel(w, a):
    return list(w.N) if a % 2 else V.immnodeset(w.N) if a % 4 else pick(w, a, 1 + a % 9)


@op
def o_partition(w, hv, a):
    c = cli(w, hv, a[0], a[1])
    return c.partition, (sel(w, a[2]),), None, part
@op
def o_epartition(w, hv, a):
    c = cli(w, hv, a[0], a[1])
    return c.epartition, (sel(w, a[2]),), None, epart
@op
def o_classify(w, hv, a):
    c = cli(w, hv, a[0], a[1])
    return c.classify, (pick(w, a[2])[0],), None, kd
@op
def o_reclassify(w, hv, a):
    """with memos in use"""
    c = cli(w, hv, a[0], a[1])
    c.partition(sel(w, a[2]))
    return [c.partition, c.epartition][a[3] % 2], (sel(w, a[2] + 1),), None, [part, epart][a[3] % 2]
@op
def o_select(w, hv, a):
    c = cli(w, hv, a[0], a[1])
    k = c.classify(pick(w, a[3])[0])
    cmp = ['==', '!=', '<=', '<', '>', '>='][a[3] % 6]
    try:
        c.select([], k, cmp)
    except ValueError:
        cmp = '=='
    return c.select, (sel(w, a[2]), k, cmp), None, lambda r: sorted(map(id, r))


@op
def o_mkcli(w, hv, a):
    k = a[0] % 6
    f, x = [(hv.cli_rcs, (V.nodegraph(), hv.cli_type(), {})), (hv.cli_inrel, (V.nodegraph(), {}, {})), (hv.cli_and, ((hv.cli_type(), hv.cli_id()), {})),
            (hv.cli_findex, (((hv.cli_type(), list, '=='), (hv.cli_type(), dict, '==')), {})), (hv.cli_type, ()), (hv.cli_indisize, ({},))][k]
    o = pick(w, a[1])[0]

    def use(c):
        if k in (0, 1):
            return type(c)
        return kd(c.classify(o))
    return f, x, None, use


@op
def o_hview(w, hv, a):
    def use(v):
        v._hiding_tag_ = w.tag
        for t in w.hexact:
            v.register_hidden_exact_type(t)
        for t in w.he:
            v.register__hiding_tag__type(t)
        return ids(v.heap()) & w.ids
    return HC.HeapView, (w.H, V.heapdefs), None, use


@op
def o_register(w, hv, a):
    k = a[0] % 3
    T = type(pick(w, a[1])[0])
    if k == 0:
        if T in (type, types.FrameType, tuple, list, dict) or not T.__flags__ & 512 or any(T is x for x in w.hexact):
            T = set
        def use(r):
            return len(ids(hv.heap()) & w.ids)
        return hv.register_hidden_exact_type, (T,), None, use
    if k == 1:
        # a class whose objects have the tag in a slot
        T = w.tagged = type('XT', (), {'__slots__': ('_hiding_tag_',)})
        x = T()
        x._hiding_tag_ = w.tag

        def use(r):
            return ids(hv.relimg([[x]])) == {id(hv)}
        return hv.register__hiding_tag__type, (T,), None, lambda r: id(x) in ids(hv.relimg([[x]]))
    ids(hv.heap())
    return hv.delete_extra_type, (T,) , None, lambda r: ids(hv.heap()) & w.ids


@op
def o_rootstate(w, hv, a):
    n = ROOTNAMES()
    n = n[a[0] % len(n)]
    return getattr, (HC.RootState, n), None, lambda r: id(r) if n != 'i0_sysdict' else 0


@op
def o_rootdir(w, hv, a):
    return HC.RootState.__dir__, (), None, lambda r: [x for x in r if '_t' not in x]


@op
def o_rootreach(w, hv, a):
    """what the interpreter itself holds"""
    return hv.relimg, ([HC.RootState],), None, lambda r: ids(r) & w.ids


@op
def o_rootrelate(w, hv, a):
    o = [sys, gc, sys.modules, types.__dict__, sys.__dict__, w.H][a[0] % 6]
    return hv.relate, (HC.RootState, o), None, rel


def ROOTNAMES():
    return [x for x in dir(HC.RootState) if '_t' not in x and not x.startswith('__')]


# ---------------------------------------------------------------------------

def call(f, args, kw, at, burst):
    """-> 'ok', result / 'memory', None"""
    r = None
    try:
        r = simrt.call(f, args, kw, at, burst, 0)
    except MemoryError:
        if not at:
            raise
        return 'memory', None, simrt.last()[0]
    except SystemError as e:
        raise Violation('system-error', '%s: %s (allocation %d and %d more failed)' % (f.__name__, e, at, burst - 1))
    return 'ok', r, simrt.last()[0]


def attempt(w, mk, a, faults, checked=True, tag=''):
    """the operation on views of its own: without a fault, with each, and then again"""
    hv = w.hview()
    f = mk
    try:
        f, args, kw, canon = mk(w, hv, a)
        s, r, n = call(f, args, kw, 0, 1)
    except (TypeError, ValueError, AttributeError) as e:
        w.ctx.log('refused', f.__name__, str(e)[:60])
        return False
    want = canon(r)
    hv = r = f = args = canon = None
    out = []
    cold = w.hview()
    for at, burst in faults:
        at = at if at < 0 else 1 + at % max(n + 2, 1)
        f, args, kw, canon = mk(w, cold, a)
        s, r, m = call(f, args, kw, at, burst)
        w.fired = simrt.last()[1]
        if s == 'ok':
            got = canon(r)
            if checked:
                need(got == want, 'wrong', lambda: '%s gave %s with allocation %d of %d failing, and %s otherwise' % (f.__name__, brief(got), at, n, brief(want)))
        if w.fired:
            w.ctx.fault('alloc', w.fired)
        out.append((s, at, w.fired))
        f = args = canon = r = got = None
        if s == 'ok' and mk is OPS['register']:
            cold = w.hview()
        # what is left behind must not matter
        f, args, kw, canon = mk(w, cold, a)
        s, r, m = call(f, args, kw, 0, 1)
        got = canon(r)
        if checked:
            need(got == want, 'after', lambda: '%s gave %s after it had failed at allocation %d of %d, and %s otherwise' % (f.__name__, brief(got), at, n, brief(want)))
        f = args = canon = r = got = None
        if mk is OPS['register']:
            cold = w.hview()
    w.ctx.log(*out)
    return True


def same(w, mk, a, faults):
    """the very same call, on the same view, classifier and memos, again"""
    hv = w.hview()
    f = mk
    try:
        f, args, kw, canon = mk(w, hv, a)
        s, r, n = call(f, args, kw, 0, 1)
    except (TypeError, ValueError, AttributeError):
        return
    want = canon(r)
    hv = r = f = args = canon = None
    f, args, kw, canon = mk(w, w.hview(), a)
    for at, burst in faults:
        at = at if at < 0 else 1 + at % max(n + 2, 1)
        s, r, m = call(f, args, kw, at, burst)
        if simrt.last()[1]:
            w.ctx.fault('alloc', simrt.last()[1])
        if s == 'ok':
            need(canon(r) == want, 'wrong', lambda: '%s gave another answer with allocation %d of %d failing' % (f.__name__, at, n))
        r = None
    s, r, m = call(f, args, kw, 0, 1)
    got = canon(r)
    need(got == want, 'after', lambda: '%s gave %s after it had failed, and %s otherwise' % (f.__name__, brief(got), brief(want)))


# operations that can be repeated with the same arguments and must give the same
AGAIN = ['heap', 'reachable', 'reachable_x', 'relimg', 'numedges', 'indisize', 'relate', 'partition', 'epartition', 'classify', 'reclassify', 'select', 'update_completely', 'update_dictowners', 'rootstate']


def brief(x):
    x = repr(x)
    return x if len(x) < 160 else x[:80] + '...' + x[-70:] + ' (%d)' % len(x)


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = W(ctx, cfg)
    for op in plan['ops']:
        ctx.step()
        if w.do(op):
            ctx.log(*op, len(w.R))
            continue
        _, o, a, faults, again = op
        w.begin()
        mk = OPS[o]
        try:
            hv = w.hview()
            if not attempt(w, mk, a, []):
                continue
        finally:
            hv = None
        settle()
        refs = list(map(simrt.refcnt, w.N))
        before = simrt.stats()[0]
        if again and o in AGAIN:
            same(w, mk, a, faults)
        else:
            attempt(w, mk, a, faults)
        settle()
        b2 = simrt.stats()[0]
        r2 = list(map(simrt.refcnt, w.N))
        for x, p, q in zip(w.N, refs, r2):
            need(p == q, 'refcount', lambda: '%s: the reference count of %s went from %d to %d' % (o, name(x), p, q))
        x = None
        ctx.state(o, a[0] % 11, len(w.N) // 8, again, len(faults))
        ctx.log(o, b2 - before > 0)
        leak(w, o, mk, a, faults, b2 - before)
        w.end()
    w.R.clear()
    w.H.clear()
    gc.collect()
    simrt.check()


def settle():
    gc.collect()
    gc.collect()
    sys._clear_type_cache()     # it holds on to the names that were looked up


def leak(w, o, mk, a, faults, d):
    """blocks that are still there after the same thing was done again and again"""
    if d <= 0 or not faults:
        return
    ds = []
    for i in range(3):
        b = simrt.stats()[0]
        n = Log(), w.ctx
        w.ctx, c = n
        try:
            attempt(w, mk, a, faults)
        finally:
            w.ctx = c
        n = c = None
        settle()
        ds.append(simrt.stats()[0] - b)
    if min(ds) > 0:
        e = []
        for i in range(3):
            b = simrt.stats()[0]
            n = Log(), w.ctx
            w.ctx, c = n
            try:
                for j in range(len(faults)):
                    attempt(w, mk, a, [])
            finally:
                w.ctx = c
            n = c = None
            settle()
            e.append(simrt.stats()[0] - b)
        need(min(e) > 0, 'leak', lambda: '%s with allocations failing at %r leaves %r blocks allocated each time' % (o, faults, ds))


# ---------------------------------------------------------------------------

def gen(rng, tier):
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30))
    wts, kinds = gw.swarm(rng)
    ops = list(gw.genops(rng, rng.choice([3, 8, 15, 30, 60]), kinds, wts))
    names = sorted(OPS)
    for _ in range(rng.choice([1, 2, 4, 6])):
        o = rng.choice(names + ['partition', 'epartition', 'reclassify', 'select', 'classify'] * 2)
        fl = [[rng.choice([rng.randrange(1 << 30), rng.randrange(40), rng.randrange(8)]), rng.choice([1, 1, 1, 2, 3, 10, 1000000])] for _ in range(rng.choice([1, 2, 4, 8]))]
        ops.insert(rng.randrange(len(ops) // 2, len(ops) + 1), ['fail', o, [rng.randrange(1 << 16) for _ in range(4)], fl, int(rng.random() < .3)])
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    for i, op in enumerate(plan['ops']):
        if op[0] == 'fail':
            for j in range(len(op[3])):
                if len(op[3]) > 1:
                    yield dict(cfg=plan['cfg'], ops=plan['ops'][:i] + [op[:3] + [op[3][:j] + op[3][j + 1:]] + op[4:]] + plan['ops'][i + 1:])
