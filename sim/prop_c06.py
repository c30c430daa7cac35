"""C06: referrers, referents, dominators and dict owners against an
independent reading of the object graph; the caches behind them are driven
through mutation, collections between and inside queries, and changed roots."""
import gc, sys
import simrt, interp, graphworld as gw
from simctx import Violation, HarnessError, need
from prop_c04 import name, compare


def setup():
    global hp, V
    from guppy import hpy
    gc.collect()
    gc.disable()
    hp = hpy()
    V = hp.View
    gw.basics()
    interp.setup()
    V.root = H = [[{}]]
    hp.heap()
    s = hp.idset([{}])
    s.referrers, s.referents, s.owners, s.byclodo.kind, s.dominos, s.domisize, s.imdom, hp.iso(H[0]).imdom, hp.iso({}).owners
    repr(s)
    hp.iso(1).nodes, hp.idset([1]), hp.Type(int)
    V.root = V.heapyc.RootState


class W(gw.GW):
    def __init__(self, ctx, cfg):
        gw.GW.__init__(self, ctx, V, hp, cfg)
        self.H = [self.R, 'root']
        self.dirty = True
        self.isdirty_at = []
        V.root = self.H

    def graph(self):
        """referrers of every visible object reachable from the root"""
        c = self.closure([self.H])
        rg = {}
        for i, o in c.items():
            for r in self.refs(o):
                rg.setdefault(id(r), {})[i] = o
        return c, rg


def kindset(objs):
    return {id(o): o for o in objs}


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = W(ctx, cfg)
    for op in plan['ops']:
        ctx.step()
        k = op[0]
        if w.do(op):
            # the collector has run after every change that preceded it
            w.dirty = k not in ('gc', 'churn')
            if k == 'churn':
                w.dirty = False
            ctx.log(*op, len(w.R))
            continue
        if k == 'root':
            # another root and back
            V.root = w.H if V.root is not w.H else list(w.H)
            V.root = w.H
            continue
        if k == 'rgall':
            full(w, ctx, op)
            continue
        query(w, ctx, op)
    w.R.clear()
    w.H.clear()
    gc.collect()
    simrt.check()


def armed(w, op, f):
    """run a query, with a collection at the chosen points inside"""
    at = op[-1]['gc'] if isinstance(op[-1], dict) else None
    if not at:
        return f()
    interp.arm(interp.GC, at[0], at[1])
    try:
        r = f()
    finally:
        n = interp.disarm()
    if n >= at[0]:
        w.ctx.fault('gc_inside')
        w.gc_inside = True
    return r


def query(w, ctx, op):
    k = op[0]
    ns = [o for o in w.nodes() if not w.hidden(o)]
    st = [ns[i % len(ns)] for i in op[1]]
    ns = None
    w.gc_inside = False
    dirty = w.dirty
    exact = not dirty
    s = None
    if k == 'referents':
        # no cache
        c, rg = None, None
        s = armed(w, op, lambda: hp.idset(st).referents.nodes)
        compare(k, s, {id(r): r for o in st for r in w.refs(o) if not w.hidden(r)}, w)
    elif k in ('referrers', 'imdom'):
        if k == 'referrers':
            s = armed(w, op, lambda: V.referrers(V.immnodeset(st)).nodes)
        else:
            s = armed(w, op, lambda: V.imdom(V.immnodeset(st)).nodes)
        c, rg = w.graph()
        want = {}
        for o in st:
            want.update(rg.get(id(o), {}))
        if k == 'imdom':
            cut = w.closure([w.H], want.values(), True)
            want = {i: o for i, o in want.items() if i in cut}
        want.pop(id(w.H), None)
        if exact:
            compare(k, without(s, w.H), want, w)
        else:
            for o in s:
                need(not w.hidden(o), 'too-much', lambda: '%s: hidden object %s' % (k, name(o)))
            o = None
        want = c = rg = cut = None
    elif k in ('dominos', 'domisize', 'dominos2'):
        def sets():
            W_ = w.closure([w.H], st)
            D = w.closure(st)
            return W_, {i: o for i, o in D.items() if i not in W_}
        if k == 'dominos':
            s = armed(w, op, lambda: hp.idset(st).dominos.nodes)
            W_, want = sets()
            compare(k, s, want, w)
        elif k == 'domisize':
            s = armed(w, op, lambda: hp.idset(st).domisize)
            W_, want = sets()
            n = sum(V.hv.indisize_sum([o]) for o in want.values())
            need(s == n, 'wrong-size', 'domisize %d, the dominated objects have %d' % (s, n))
        else:
            a, b = st[:1], st[1:]
            ss = armed(w, op, lambda: V.dominos_tuple((hp.idset(a), hp.idset(b))))
            W_, want = sets()
            for x, y, s in ((a, b, ss[0]), (b, a, ss[1])):
                xw = w.closure(x, list(W_.values()))
                yw = w.closure(a + b, list(W_.values()) + x)
                compare(k, s.nodes, {i: o for i, o in xw.items() if i not in yw}, w)
            s = ss = x = y = xw = yw = a = b = None
        W_ = D = want = None
    elif k == 'owners':
        ds = [o for o in w.nodes() if type(o) is dict]
        ds = [ds[i % len(ds)] for i in op[1]] if ds else []
        for d in ds:
            how = op[2] % 3
            if how == 0:
                s = armed(w, op, lambda: hp.iso(d).owners.nodes)
                got = list(s)
            elif how == 1:
                s = armed(w, op, lambda: hp.iso(d).byclodo.kind)
                got = s
            else:
                s = armed(w, op, lambda: hp.idset([d] + st).byclodo.partition)
                got = None
            own = simrt.owners(gc.get_objects(), d)
            if exact and not w.gc_inside:
                if how == 0:
                    need(len(got) <= 1, 'too-much', 'a dict has several owners')
                    if own:
                        need(got and any(got[0] is o for o in own), 'wrong-owner', lambda: 'owner %s of a dict, expected %s' % (
                            [name(o) for o in got], [name(o) for o in own]))
                    else:
                        need(not got, 'wrong-owner', lambda: 'owner %s of a dict that has none' % name(got[0]))
                elif how == 1:
                    txt = s.brief
                    need((txt == 'dict (no owner)') == (not own) and (not own or txt.startswith('dict of ')) and
                         (not own or any(isinstance(o, type) or type(o).__name__ in txt for o in own)),
                         'wrong-owner', lambda: 'kind %r of a dict owned by %s' % (txt, [name(o) for o in own]))
            s = got = own = o = None
        d = ds = None
    else:
        raise HarnessError(repr(op))
    if w.gc_inside:
        w.dirty = False
    ctx.log(k, len(s) if hasattr(s, '__len__') else 0, w.dirty)
    ctx.state(k, dirty, w.gc_inside, len(s).bit_length() if hasattr(s, '__len__') else 0)
    s = st = None


def without(s, o):
    return V.immnodeset(s) - [o]


def full(w, ctx, op):
    """referrers of everything, computed at once, from the real root"""
    V.root = V.heapyc.RootState
    V.is_rg_update_all = not op[2] % 2
    sys.modules['xsim'] = m = type(sys)('xsim')
    m.R = w.R
    m = None
    try:
        gc.collect()
        ns = [o for o in w.nodes() if not w.hidden(o)]
        st = [ns[i % len(ns)] for i in op[1]]
        ns = None
        c = w.closure([w.R])
        want = {}
        for o in c.values():
            if gc.is_tracked(o) and any(r is t for t in st for r in w.refs(o)):
                want[id(o)] = o
        o = c = None
        s = V.referrers(V.immnodeset(st)).nodes
        got = kindset(s)
        for i, o in want.items():
            if type(o) not in (type(V.nodegraph()),) and not isinstance(o, V.NodeSet):
                need(i in got, 'missing', lambda: 'referrers from the whole heap lack %s' % name(o))
        for o in got.values():
            need(type(o) is gw.FR or any(r is t for t in st for r in gc.get_referents(o)), 'too-much', lambda: 'referrers from the whole heap have %s' % name(o))
        ctx.state('rgall', op[2] % 2)
    finally:
        s = got = want = c = o = st = None
        V.is_rg_update_all = False
        del sys.modules['xsim']
        V.root = w.H


# ---------------------------------------------------------------------

def gen(rng, tier):
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), deep=rng.choice([3, 20, 50]))
    wts, kinds = gw.swarm(rng)
    wts['gc'] = 0
    if rng.random() < .5:
        kinds = [k for k in kinds if k not in ('class', 'inst', 'slots', 'listsub', 'dictsub', 'instdict')] or ['list', 'dict']
    ops = []

    def r():
        return rng.choice([0, rng.randrange(4), rng.randrange(12), rng.randrange(60), rng.randrange(1000)])

    def arm():
        if rng.random() < .3:
            return [dict(gc=[rng.choice([1, 2, 5, rng.randrange(1, 40), rng.randrange(1, 200)]), rng.choice([0, 0, 1, 7])])]
        return []
    qs = rng.choice([['referrers'], ['owners'], ['referrers', 'imdom'], ['dominos', 'domisize', 'dominos2', 'referents'],
                     ['referrers', 'imdom', 'owners', 'dominos', 'referents', 'dominos2']])
    for _ in range(rng.choice([1, 2, 4, 8])):
        ops += gw.genops(rng, rng.choice([1, 3, 6, 10]), kinds, wts)
        for _ in range(rng.choice([1, 1, 2, 4])):
            if rng.random() < .6:
                ops.append(['gc'])
            for _ in range(rng.choice([1, 1, 2])):
                q = rng.choice(qs)
                n = [r() for _ in range(rng.choice([1, 1, 1, 2, 4]))]
                if q == 'owners':
                    ops.append([q, n, rng.randrange(3)] + arm())
                elif q == 'dominos2':
                    ops.append([q, n + [r()]] + arm())
                else:
                    ops.append([q, n] + arm())
        if rng.random() < .2:
            # the cache is in use when the collection comes
            x = [r() for _ in range(3)]
            q = rng.choice(['referrers', 'imdom'])
            ops.append(['gc'])
            ops.append([q, x])
            ops += gw.genops(rng, rng.choice([1, 2, 4]), kinds, wts, hidden=False)
            ops.append([q, x[:rng.choice([1, 3])], dict(gc=[rng.randrange(1, 60), 0])])
            ops.append([q, x])
        if rng.random() < .1:
            ops.append(['root'])
    if rng.random() < .04:
        ops.append(['rgall', [r() for _ in range(3)], rng.randrange(2)])
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    c = plan['cfg']
    if c['deep'] > 3:
        yield dict(plan, cfg=dict(c, deep=3))
    if c['mode']:
        yield dict(plan, cfg=dict(c, mode=0))
