"""C03: node graphs against a reference model with exact lifetimes.

World: logical objects (never reused numbers), a pool of strong references,
slots holding node graphs, iterators, objects that own graphs.  After every
operation the edges, every query, the reference count of every live object and
the liveness of every object ever created are compared with the model.
Faults: failing allocations, raising or malformed iterables, iterables and
destructors that use the graphs in the middle of an operation, collections.
"""
import gc, sys, weakref
import simrt
from simctx import Violation, HarnessError, need

NSLOT = 4


def setup():
    global NG, S, SubNG, BASE
    from guppy.heapy.heapyc import NodeGraph
    from guppy import sets
    NG = NodeGraph
    S = sets
    gc.collect()
    gc.disable()

    class SubNG(NodeGraph):
        pass
    BASE = measure([O(-1, None)]) - 1


class O:
    __slots__ = ('n', 'w', 'ref', '__weakref__')

    def __init__(self, n, w):
        self.n = n
        self.w = w
        self.ref = None

    def __del__(self):
        w = self.w
        if w is not None:
            w.on_del(self)


def measure(pool):
    for o in pool:
        return simrt.refcnt(o)


class MG:
    __slots__ = ('edges', 'mapping', 'tag', 'k', 'sub')

    def __init__(self, edges, mapping, tag, k, sub=0):
        self.edges = set(edges)
        self.mapping = mapping
        self.tag = tag
        self.k = k
        self.sub = sub

    def nodes(self):
        s = {i for e in self.edges for i in e}
        if self.tag is not None:
            s.add(self.tag)
        return s

    def tgts(self, i):
        return {t for s, t in self.edges if s == i}


class Boom(Exception):
    pass


class BadBool:
    def __bool__(self):
        raise Boom


def num(o):
    need(type(o) is O, 'dead-object-exposed', lambda: 'the graph gave a %r' % (type(o),))
    return o.n


def raw(g):
    """the edges as stored, without sorting them"""
    l = g.as_flat_list()
    need(len(l) % 2 == 0, 'contents', 'odd flat list')
    n = [num(o) for o in l]
    o = None
    return list(zip(n[::2], n[1::2]))


class World:
    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.cfg = cfg
        self.n = 0
        self.wr = {}
        self.pool = {}
        self.objref = {}
        self.script = {}
        self.slot = [None] * NSLOT
        self.m = [None] * NSLOT
        self.iters = [None] * 3      # [iterator, MG, allowed edges, yielded, done]
        self.touched = None          # (model graph, edge or None for all)
        self.nested_err = []
        self.quiet = False
        self.in_gc = False
        self.nk = 0
        self.fired = 0
        self.filler = []

    def new(self, script, ref):
        i = self.n
        self.n += 1
        o = O(i, self)
        self.wr[i] = weakref.ref(o)
        self.pool[i] = o
        if script:
            self.script[i] = script
        if ref is not None and self.slot[ref] is not None:
            o.ref = self.slot[ref]
            self.objref[i] = self.m[ref]
        if self.cfg['spacing']:
            self.filler.append(bytes(self.cfg['spacing']))

    def put(self, s, x, m):
        self.m[s] = m
        self.slot[s] = x

    def mk(self, edges, mapping, tag, sub=0):
        self.nk += 1
        return MG(edges, mapping, tag, self.nk, sub)

    def on_del(self, o):
        sc = self.script.pop(o.n, None)
        if sc is None or self.quiet:
            return
        sus = simrt.suspend(True)
        try:
            self.ctx.fault('destructor_reentry')
            self.nested(sc, o)
        except BaseException as e:
            self.nested_err.append('%s: %s' % (type(e).__name__, e))
        finally:
            simrt.suspend(sus)

    def nested(self, script, me=None):
        for a in script:
            k, s = a[0], a[1]
            x, m = self.slot[s], self.m[s]
            if x is None:
                continue
            self.ctx.log('nested', k, s)
            if k == 'clear':
                self.touched.append((m, None))
                m.edges = set()
                x.clear()
            elif k == 'add' and a[2] in self.pool and a[3] in self.pool:
                self.touched.append((m, (a[2], a[3])))
                m.edges.add((a[2], a[3]))
                x.add_edge(self.pool[a[2]], self.pool[a[3]])
            elif k == 'invert':
                self.touched.append((m, None))
                m.edges = {(t, s_) for s_, t in m.edges}
                x.invert()
            elif k == 'get' and a[2] in self.pool:
                try:
                    r = x[self.pool[a[2]]]
                except (KeyError, ValueError):
                    continue
                for o in r if type(r) is tuple else (r,):
                    num(o)
                r = o = None
            elif k == 'iter':
                c = 0
                for e in x:
                    num(e[0]), num(e[1])
                    c += 1
                    if c > self.n * self.n + 5:
                        raise Violation('dead-object-exposed', 'iteration does not end')
                e = None
            elif k == 'len':
                need(0 <= len(x) <= self.n * self.n + 5, 'contents', str(len(x)))
            elif k == 'set' and a[2] in self.pool and a[3] in self.pool:
                # assign to every edge of a source the same number of targets
                src = self.pool[a[2]]
                self.touched.append((m, None))
                try:
                    old = x[src]
                except (KeyError, ValueError):
                    src = None
                    continue
                if m.mapping:
                    x[src] = self.pool[a[3]]
                    m.edges = {e for e in m.edges if e[0] != a[2]} | {(a[2], a[3])}
                else:
                    x[src] = old
                src = old = None
            elif k == 'self' and me is not None and not self.in_gc:
                self.touched.append((m, (me.n, me.n)))
                m.edges.add((me.n, me.n))
                x.add_edge(me, me)
            elif k == 'dropslot':
                x = None
                self.put(s, None, None)
            elif k == 'copy':
                c = x.copy()
                raw(c)
                c = None
            x = None

    # -- model ---------------------------------------------------------
    def graphs(self):
        """every model graph that may be alive, with the real object"""
        r = {}
        for x, m in zip(self.slot, self.m):
            if m is not None:
                r[m.k] = (m, x)
        for it in self.iters:
            if it is not None:
                for x in gc.get_referents(it[0]):
                    r.setdefault(it[1].k, (it[1], x))
        for i, wr in self.wr.items():
            m = self.objref.get(i)
            if m is not None and m.k not in r:
                o = wr()
                if o is not None:
                    r[m.k] = (m, o.ref)
                o = None
        return r

    def alive(self, reach):
        """logical objects and graphs alive: by reference counting, or after
        a collection by reachability from the roots"""
        if reach:
            al = set(self.pool)
            gs = {}
            todo = [m for m in self.m if m is not None] + [it[1] for it in self.iters if it is not None]
            todo += [self.objref[i] for i in al if i in self.objref]
            while todo:
                m = todo.pop()
                if m.k in gs:
                    continue
                gs[m.k] = m
                for i in m.nodes():
                    if i not in al:
                        al.add(i)
                        if i in self.objref:
                            todo.append(self.objref[i])
            return al, gs
        al = set(self.wr)
        while True:
            gs = {m.k: m for m in self.m if m is not None}
            for it in self.iters:
                if it is not None:
                    gs[it[1].k] = it[1]
            for i in al:
                if i in self.objref:
                    gs[self.objref[i].k] = self.objref[i]
            held = set(self.pool)
            for m in gs.values():
                held |= m.nodes()
            held &= al
            if held == al:
                return al, gs
            al = held

    def check(self, what, reach=False):
        if self.nested_err:
            raise Violation('error-in-nested-use', '%s: %s' % (what, self.nested_err[0]))
        al, gs = self.alive(reach)
        for i in list(self.wr):
            o = self.wr[i]()
            if i in al:
                need(o is not None, 'object-lost', '%s: object %d died while a graph holds it' % (what, i))
            else:
                need(o is None, 'object-leaked', '%s: object %d is alive but nothing holds it' % (what, i))
                del self.wr[i]
                self.objref.pop(i, None)
                self.script.pop(i, None)
            o = None
        cnt = dict.fromkeys(al, 0)
        real = self.graphs()
        for k, m in gs.items():
            x = real[k][1]
            r = raw(x)
            need(set(r) == m.edges, 'contents', lambda: '%s: graph has %s, expected %s' % (
                what, sorted(set(r)), sorted(m.edges)))
            need(len(r) == len(m.edges) or not x.is_sorted, 'contents', lambda: '%s: edge stored twice: %s' % (what, r))
            for s, t in r:
                cnt[s] += 1
                cnt[t] += 1
            if m.tag is not None and m.tag in cnt:
                cnt[m.tag] += 1
            tag = getattr(x, '_hiding_tag_', None)
            need((tag.n if tag is not None else None) == m.tag, 'contents', '%s: hiding tag' % what)
            tag = None
            need(bool(x.is_mapping) == m.mapping, 'contents', 'is_mapping')
            need(type(x) is (SubNG if m.sub else NG), 'contents', 'type')
        x = real = None
        for i in self.pool:
            cnt[i] += 1
        for i in al:
            o = self.wr[i]()
            r = simrt.refcnt(o) - BASE
            need(r == cnt[i], 'reference-count', lambda: '%s: object %d has %d references, expected %d' % (
                what, i, r, cnt[i]))
        for it in self.iters:
            if it is not None:
                it[2] |= it[1].edges

    def adopt(self, what, pre, exp, mode):
        """after a disturbed operation: every difference must be explained"""
        free, anyfree, wild = {}, set(), False
        for m, e in self.touched:
            if e is None:
                wild = True
            else:
                anyfree.add(e)
                anyfree.add(e[::-1])
        for k, (m, x) in self.graphs().items():
            got = set(raw(x))
            e = exp.get(k)
            p = pre.get(k, m.edges)
            if e is None:
                e = p
            if not wild:
                for i in got ^ e:
                    if i in anyfree or (mode == 'partial' and (i in p) != (i in e)):
                        continue
                    raise Violation('contents', '%s: edge %s %s' % (
                        what, i, 'is present but should not be' if i in got else 'is missing'))
            m.edges = got
        x = None


# ---------------------------------------------------------------------

def make_edges(w, d):
    """(argument, list of edges it yields, kind of failure or None)"""
    k = d['k']
    if k == 'slot':
        x = w.slot[d['s']]
        if x is None:
            return None, None, None
        return x, sorted(w.m[d['s']].edges), None
    es = [e for e in d['e'] if e[0] in w.pool and e[1] in w.pool]
    bad = d.get('bad')
    end = None
    if bad is not None and bad <= len(es):
        end = bad
    if k == 'list':
        r = [(w.pool[a], w.pool[b]) for a, b in es]
        if end is not None:
            r.insert(end, BADS[d['badk'] % len(BADS)])
        return r, [tuple(e) for e in (es if end is None else es[:end])], (TypeError if end is not None else None)

    def g():
        for j, e in enumerate(es + [None]):
            sus = simrt.suspend(True)
            try:
                if end == j:
                    w.ctx.fault('iterable_raises')
                    raise Boom
                if e is None:
                    return
                if d.get('at') == j:
                    w.ctx.fault('iterable_reentry')
                    w.nested(d['script'])
                a, b = w.pool.get(e[0]), w.pool.get(e[1])
            finally:
                simrt.suspend(sus)
            yield (a, b)
            a = b = None
    return g(), [tuple(e) for e in (es if end is None else es[:end])], (Boom if end is not None else None)


BADS = [5, (), (1,), (1, 2, 3), [1, 2], None, 'ab']


def make_nodes(w, d):
    """an iterable of objects: (argument, ids, failure)"""
    k = d['k']
    ids = [i for i in d['ids'] if i in w.pool]
    if k == 'list':
        return [w.pool[i] for i in ids], ids, None
    if k == 'tuple':
        return tuple([w.pool[i] for i in ids]), ids, None
    if k in ('mut', 'imm'):
        r = (S.mutnodeset if k == 'mut' else S.immnodeset)([w.pool[i] for i in ids])
        return r, sorted(set(ids)), None
    end = d.get('bad')
    if end is not None and end > len(ids):
        end = None

    def g():
        for j, i in enumerate(ids + [None]):
            sus = simrt.suspend(True)
            try:
                if end == j:
                    w.ctx.fault('iterable_raises')
                    raise Boom
                if i is None:
                    return
                if d.get('at') == j:
                    w.ctx.fault('iterable_reentry')
                    w.nested(d['script'])
                o = w.pool.get(i)
            finally:
                simrt.suspend(sus)
            yield o
            o = None
    return g(), (ids if end is None else ids[:end]), (Boom if end is not None else None)


def read_set(x):
    r = set()
    for o in x:
        i = num(o)
        need(i not in r, 'wrong-result', 'object twice in a set')
        r.add(i)
    o = None
    need(len(x) == len(r), 'wrong-result', 'length of a resulting set')
    return r


def do(w, op):
    name = op[0]
    ctx = w.ctx
    what = name
    fail = op[-1] if isinstance(op[-1], dict) and 'fail' in op[-1] else None
    at, burst = fail['fail'] if fail else (0, 0)
    w.touched = []
    w.fired = 0
    pre = {k: set(m.edges) for k, (m, x) in w.graphs().items()}
    x = None
    exp = {}
    mode = 'exact'

    def call(f, *args):
        try:
            return True, simrt.call(f, args, None, at, burst, 0)
        except BaseException as e:
            e.__traceback__ = None
            return False, e
        finally:
            w.fired = simrt.last()[1]
            ctx.fault('alloc_failure', w.fired)

    def failed(e, *also):
        if w.fired and isinstance(e, MemoryError):
            return True
        if also and isinstance(e, also):
            return True
        raise Violation('wrong-exception', '%s raised %s: %s' % (what, type(e).__name__, e))

    def result(got, want, what):
        """compare an answer; parts touched from inside are not compared"""
        if w.touched:
            if any(e is None for _, e in w.touched):
                return
            free = set()
            for _, e in w.touched:
                free |= {e, e[::-1], e[0], e[1]}
            bad = (got ^ want) - free
        else:
            bad = got ^ want
        need(not bad, 'wrong-result', lambda: '%s: got %s, expected %s' % (what, sorted(got), sorted(want)))

    if name == 'new':
        w.new(op[1], op[2])
    elif name == 'drop':
        w.pool.pop(op[1], None)
    elif name == 'dropslot':
        w.put(op[1], None, None)
    elif name == 'alias':
        w.put(op[2], w.slot[op[1]], w.m[op[1]])
    elif name == 'setref':
        o = w.pool.get(op[1])
        if o is not None:
            if w.slot[op[2]] is not None:
                w.objref[op[1]] = w.m[op[2]]
                o.ref = w.slot[op[2]]
            else:
                w.objref.pop(op[1], None)
                o.ref = None
        o = None
    elif name == 'gc':
        w.in_gc = True
        gc.collect()
        w.in_gc = False
        ctx.fault('gc')
    elif name == 'ctor':
        _, sub, d, mapping, dst = op[:5]
        cls = (NG, SubNG)[sub]
        a, es, f = make_edges(w, d) if d is not None else (None, [], None)
        if es is not None:
            mp = {0: False, 1: True, 2: BadBool()}[mapping]
            okd, r = call(cls, a, mp)
            if okd:
                need(f is None, 'error-swallowed', 'the constructor ignored an exception')
                need(mapping != 2, 'error-swallowed', 'the constructor ignored an exception of is_mapping')
                m = w.mk(es, mapping == 1, None, sub)
                if w.touched:
                    got = set(raw(r))
                    result(got, m.edges, what)
                    m.edges = got
                w.put(dst, r, m)
            else:
                failed(r, *([f] if f else []), *([Boom] if mapping == 2 else []))
            r = a = None
    elif name == 'add':
        _, s, i, j = op[:4]
        x = w.slot[s]
        if x is not None and i in w.pool and j in w.pool:
            okd, r = call(x.add_edge, w.pool[i], w.pool[j])
            if okd:
                exp[w.m[s].k] = w.m[s].edges | {(i, j)}
            else:
                failed(r)
    elif name == 'addn1':
        _, s, d, j = op[:4]
        x = w.slot[s]
        if x is not None and j in w.pool:
            m = w.m[s]
            a, ids, f = make_nodes(w, d)
            t = w.pool[j]
            okd, r = call(x.add_edges_n1, a, t)
            t = None
            exp[m.k] = m.edges | {(i, j) for i in ids}
            if okd:
                need(f is None, 'error-swallowed', 'add_edges_n1 ignored an exception')
            else:
                failed(r, *([f] if f else []))
                if isinstance(r, MemoryError):
                    mode = 'partial'
            a = None
    elif name == 'update':
        _, s, d = op[:3]
        x = w.slot[s]
        if x is not None:
            m = w.m[s]
            a, es, f = make_edges(w, d)
            if es is not None:
                me = d['k'] == 'slot' and w.m[d['s']] is m
                okd, r = call(x.update, a)
                exp[m.k] = m.edges | set(es)
                if okd:
                    need(f is None, 'error-swallowed', 'update ignored an exception')
                else:
                    failed(r, *([f] if f else []), *([RuntimeError] if me else []))
                    if isinstance(r, MemoryError):
                        mode = 'partial'
                a = None
    elif name == 'updated':
        _, s, d, dst = op[:4]
        x = w.slot[s]
        if x is not None:
            m = w.m[s]
            a, es, f = make_edges(w, d)
            if es is not None:
                okd, r = call(x.updated, a)
                if okd:
                    need(f is None, 'error-swallowed', 'updated ignored an exception')
                    need(r is not x, 'wrong-result', 'updated returned the graph itself')
                    n = w.mk(m.edges | set(es), m.mapping, m.tag, m.sub)
                    if w.touched:
                        n.edges = set(raw(r))
                        result(n.edges, pre[m.k] | set(es), what)
                    w.put(dst, r, n)
                else:
                    failed(r, *([f] if f else []))
                a = None
            r = None
    elif name in ('copy', 'inverted'):
        _, s, dst = op[:3]
        x = w.slot[s]
        if x is not None:
            m = w.m[s]
            okd, r = call(getattr(x, name))
            if okd:
                need(r is not x, 'wrong-result', '%s returned the graph itself' % name)
                w.put(dst, r, w.mk(m.edges if name == 'copy' else {e[::-1] for e in m.edges}, m.mapping, m.tag, m.sub))
            else:
                failed(r)
            r = None
    elif name in ('invert', 'clear'):
        x = w.slot[op[1]]
        if x is not None:
            m = w.m[op[1]]
            pe = m.edges
            if name == 'clear':
                m.edges = set()      # before: destructors see the emptied graph
            okd, r = call(getattr(x, name))
            if okd:
                if name == 'invert':
                    exp[m.k] = {e[::-1] for e in m.edges}
                else:
                    exp[m.k] = set()
            else:
                m.edges = pe
                failed(r)
    elif name == 'tag':
        x = w.slot[op[1]]
        if x is not None and op[2] in w.pool:
            w.m[op[1]].tag = op[2]
            x._hiding_tag_ = w.pool[op[2]]
    elif name == 'get':
        _, s, i = op[:3]
        x = w.slot[s]
        if x is not None and i in w.pool:
            m = w.m[s]
            okd, r = call(x.__getitem__, w.pool[i])
            t = m.tgts(i)
            if okd:
                if m.mapping:
                    need(len(t) == 1, 'wrong-result', 'lookup gave one target, expected %d' % len(t))
                    result({num(r)}, t, what)
                else:
                    need(type(r) is tuple, 'wrong-result', 'lookup gave a %r' % type(r))
                    need(len(r) == len(t), 'wrong-result', 'lookup of %d: %d targets, expected %d' % (i, len(r), len(t)))
                    result({num(o) for o in r}, t, what)
            elif not (w.fired and isinstance(r, MemoryError)):
                need(m.mapping and (isinstance(r, KeyError) and not t or isinstance(r, ValueError) and len(t) > 1),
                     'wrong-exception', lambda: 'lookup of %d: %r' % (i, r))
            r = o = None
    elif name == 'set':
        _, s, i, js = op[:4]
        x = w.slot[s]
        if x is not None and i in w.pool:
            m = w.m[s]
            js = [j for j in dict.fromkeys(js) if j in w.pool]
            t = m.tgts(i)
            if not m.mapping and js and len(t) and op[4] < 8:
                # usually the right number of targets
                js = (js + [j for j in sorted(w.pool) if j not in js])[:len(t)]
            if m.mapping and js:
                js = js[:1]
            if m.mapping:
                v = w.pool[js[0]] if js else None
            else:
                v = tuple([w.pool[j] for j in js]) if op[4] else [w.pool[j] for j in js]
            if v is not None:
                o = w.pool[i]
                good = len(t) == len(js) and (m.mapping or type(v) is tuple)
                if good:
                    # before: destructors of the replaced targets see the new edges
                    m.edges = {e for e in m.edges if e[0] != i} | {(i, j) for j in js}
                okd, r = call(x.__setitem__, o, v)
                o = v = None
                if okd:
                    need(good, 'wrong-result', 'assignment of a wrong number of targets succeeded')
                    if not w.touched:
                        exp[m.k] = {e for e in m.edges if e[0] != i} | {(i, j) for j in js}
                    else:
                        exp[m.k] = {e for e in pre[m.k] if e[0] != i} | {(i, j) for j in js}
                else:
                    m.edges = set(pre[m.k])
                    if not (w.fired and isinstance(r, MemoryError)):
                        need(not good and isinstance(r, (ValueError, TypeError)), 'wrong-exception', lambda: 'assignment: %r' % (r,))
            v = r = None
    elif name == 'del':
        x = w.slot[op[1]]
        if x is not None and op[2] in w.pool:
            okd, r = call(x.__delitem__, w.pool[op[2]])
            need(not okd and isinstance(r, NotImplementedError), 'wrong-exception', 'deletion: %r' % (r,))
            r = None
    elif name == 'len':
        x = w.slot[op[1]]
        if x is not None:
            n = len(x)
            need(n == len(w.m[op[1]].edges), 'wrong-result', 'length %d, expected %d' % (n, len(w.m[op[1]].edges)))
    elif name in ('domain', 'range'):
        x = w.slot[op[1]]
        if x is not None:
            m = w.m[op[1]]
            okd, r = call(x.get_domain if name == 'domain' else x.get_range)
            if okd:
                result(read_set(r), {e[0 if name == 'domain' else 1] for e in m.edges}, what)
                tag = getattr(r, '_hiding_tag_', None)
                need((num(tag) if tag is not None else None) == m.tag, 'wrong-result', 'hiding tag of the %s' % name)
                tag = None
            else:
                failed(r)
            r = None
    elif name in ('relimg', 'covers', 'restricted'):
        _, s, d, dst = op[:4]
        x = w.slot[s]
        if x is not None:
            m = w.m[s]
            a, ids, f = make_nodes(w, d)
            okd, r = call({'relimg': x.relimg, 'covers': x.domain_covers, 'restricted': x.domain_restricted}[name], a)
            if okd:
                if name != 'covers':
                    need(f is None, 'error-swallowed', '%s ignored an exception' % name)
                if name == 'relimg':
                    result(read_set(r), {t for i in ids for t in m.tgts(i)}, what)
                elif name == 'covers':
                    want = all(m.tgts(i) for i in ids)
                    need(bool(w.touched) or r is want and not (want and f), 'wrong-result', 'domain_covers gave %r, expected %r' % (r, want))
                else:
                    n = w.mk([e for e in m.edges if e[0] in ids], m.mapping, m.tag, m.sub)
                    if w.touched:
                        n.edges = set(raw(r))
                        result(n.edges, {e for e in m.edges if e[0] in ids}, what)
                    w.put(dst, r, n)
            else:
                failed(r, *([f] if f else []))
            r = a = None
    elif name == 'iter':
        x = w.slot[op[1]]
        w.iters[op[2]] = None
        if x is not None:
            m = w.m[op[1]]
            okd, r = call(iter, x)
            if okd:
                w.iters[op[2]] = [r, m, set(m.edges), [], set(m.edges)]
            else:
                failed(r)
            r = None
    elif name == 'next':
        it = w.iters[op[1]]
        if it is not None:
            for _ in range(op[2]):
                okd, r = call(next, it[0])
                if not okd:
                    if w.fired and isinstance(r, MemoryError):
                        continue
                    if isinstance(r, RuntimeError):
                        w.iters[op[1]] = None
                        ctx.probe('iterator_noticed_change')
                        break
                    need(isinstance(r, StopIteration), 'wrong-exception', lambda: 'next: %r' % (r,))
                    if it[1].edges == it[2] == it[4]:
                        need(sorted(it[3]) == sorted(it[4]), 'iteration', lambda: 'iteration gave %s, expected %s' % (
                            sorted(it[3]), sorted(it[4])))
                    w.iters[op[1]] = None
                    break
                e = (num(r[0]), num(r[1]))
                need(e in it[2], 'iteration', lambda: 'iteration gave %s which never was an edge' % (e,))
                it[3].append(e)
                r = None
            r = None
        it = None
    elif name == 'dropiter':
        w.iters[op[1]] = None
    elif name == 'loop':
        _, s, k, script = op[:4]
        x = w.slot[s]
        if x is not None:
            m = w.m[s]
            start = set(m.edges)
            c = 0
            try:
                for e in x:
                    e = (num(e[0]), num(e[1]))
                    need(e in start or w.touched, 'iteration', 'iteration gave a stranger')
                    if c == k:
                        ctx.fault('mutation_during_iteration')
                        w.nested(script)
                    c += 1
                    need(c <= 3 * w.n * w.n + 10, 'iteration', 'iteration does not end')
            except RuntimeError as e_:
                need(w.touched, 'wrong-exception', 'iteration of an unchanged graph: %r' % (e_,))
                ctx.probe('iterator_noticed_change')
            e = e_ = None
    else:
        raise HarnessError('unknown op %r' % (name,))
    x = None
    if w.touched or mode == 'partial':
        w.adopt(what, pre, exp, mode)
    else:
        gs = w.graphs()
        for k, e in exp.items():
            if k in gs:
                gs[k][0].edges = set(e)
        gs = None
    w.touched = []
    w.check(what, name == 'gc')
    ctx.step()
    ctx.log(name, sorted((m.k, m.mapping, tuple(sorted(m.edges))) for m, x in w.graphs().values()), len(w.wr))
    ctx.state(name, tuple(None if m is None else (m.mapping, min(len(m.edges), 6), m.tag is not None, bool(x.is_sorted))
                          for m, x in zip(w.m, w.slot))[:3], bool(w.fired))


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = World(ctx, cfg)
    errs = []
    sys.unraisablehook = lambda a: errs.append(repr(a.exc_value))
    scripts = cfg.get('scripts', {})
    for i in range(cfg['n0']):
        w.new(scripts.get(str(i)), None)
    for op in plan['ops']:
        do(w, op)
        if errs:
            raise Violation('unraisable', '%s: %s' % (op[0], errs[0]))
    w.quiet = True
    for i in range(3):
        w.iters[i] = None
    for s in range(NSLOT):
        w.put(s, None, None)
    w.pool.clear()
    gc.collect()
    for i, r in w.wr.items():
        need(r() is None, 'object-leaked', 'object %d is alive at the end' % i)
    simrt.check()


# ---------------------------------------------------------------------

OPS = ['new', 'drop', 'dropslot', 'alias', 'gc', 'ctor', 'add', 'addn1', 'update', 'updated', 'copy', 'inverted', 'invert',
       'clear', 'tag', 'get', 'set', 'del', 'len', 'domain', 'range', 'relimg', 'covers', 'restricted', 'iter', 'next',
       'dropiter', 'setref', 'loop']
NOFAIL = {'new', 'drop', 'dropslot', 'alias', 'gc', 'tag', 'loop', 'setref', 'len', 'del', 'dropiter'}


def gen(rng, tier):
    style = rng.choice(['plain', 'alloc', 'alloc', 'reent', 'reent', 'iter'])
    big = rng.random() < .1
    n0 = rng.choice([2, 3, 5, 8, 12]) if not big else rng.choice([40, 90])
    cfg = dict(style=style, mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), n0=n0,
               spacing=rng.choice([0, 0, 200]))
    nops = rng.choice([5, 12, 25, 40]) if not big else 12
    top = [n0]
    w = {n: rng.choice([0, 1, 2, 4]) for n in OPS}
    for n, b in (('ctor', 3), ('update', 2), ('add', 3), ('drop', 3), ('set', 2), ('get', 1)):
        w[n] += b
    for n in ('gc', 'tag', 'del'):
        w[n] = min(w[n], 1)
    if style == 'reent':
        w['new'] += 4
        w['clear'] += 2
        w['set'] += 4
        w['loop'] += 2
    else:
        w['loop'] = 0
    if style == 'iter':
        w['iter'] += 5
        w['next'] += 8
    names = [n for n in OPS if w[n]]
    weights = [w[n] for n in names]

    def slot():
        return rng.randrange(NSLOT) if rng.random() < .4 else rng.randrange(2)

    def oid():
        return rng.randrange(top[0])

    def script():
        r = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(['clear', 'clear', 'add', 'add', 'invert', 'get', 'iter', 'len', 'set', 'self', 'dropslot', 'copy'])
            a = [k, slot()]
            if k in ('add', 'set'):
                a += [oid(), oid()]
            elif k == 'get':
                a.append(oid())
            r.append(a)
        return r

    def edges():
        n = rng.choice([0, 1, 2, 3, 5, 8]) if not big else rng.choice([5, 40, 200])
        hot = [oid() for _ in range(2)]
        return [[rng.choice(hot) if rng.random() < .4 else oid(), rng.choice(hot) if rng.random() < .3 else oid()]
                for _ in range(n)]

    def its():
        return ['gen'] * 3 if style == 'reent' else ['gen'] if style in ('plain', 'iter') else []

    def disturb(d, n):
        if d['k'] == 'gen' or (d['k'] == 'list' and 'e' in d):
            if rng.random() < (.3 if d['k'] == 'gen' else .15):
                d['bad'] = rng.randrange(n + 1)
                d['badk'] = rng.randrange(10)
        if d['k'] == 'gen' and style == 'reent' and rng.random() < .7 and n:
            d['at'] = rng.randrange(n)
            d['script'] = script()
        return d

    def eiter():
        k = rng.choice(['slot', 'list', 'list'] + its())
        if k == 'slot':
            return dict(k=k, s=slot())
        e = edges()
        return disturb(dict(k=k, e=e), len(e))

    def niter():
        k = rng.choice(['list', 'tuple', 'mut', 'imm'] + its())
        ids = [oid() for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
        return disturb(dict(k=k, ids=ids), len(ids))
    ops = []
    if style == 'reent':
        cfg['scripts'] = {str(i): script() for i in range(min(n0, 40)) if rng.random() < .5}
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append(['ctor', 0, dict(k='list', e=edges()), rng.choice([0, 0, 1]), slot()])
    if rng.random() < .6:
        keep = rng.choice([0, .3, .7])
        for i in range(n0):
            if rng.random() > keep:
                ops.append(['drop', i])
    for _ in range(nops):
        n = rng.choices(names, weights)[0]
        if n == 'new':
            op = [n, script() if style == 'reent' and rng.random() < .7 else None, slot() if rng.random() < .3 else None]
            top[0] += 1
        elif n == 'drop':
            op = [n, oid()]
        elif n in ('dropslot', 'invert', 'clear', 'len', 'domain', 'range'):
            op = [n, slot()]
        elif n in ('alias', 'copy', 'inverted'):
            op = [n, slot(), slot()]
        elif n == 'gc':
            op = [n]
        elif n == 'ctor':
            op = [n, int(rng.random() < .2), eiter() if rng.random() < .8 else None,
                  2 if rng.random() < .04 else rng.choice([0, 0, 1]), slot()]
        elif n == 'add':
            op = [n, slot(), oid(), oid()]
        elif n == 'addn1':
            op = [n, slot(), niter(), oid()]
        elif n == 'update':
            op = [n, slot(), eiter()]
        elif n == 'updated':
            op = [n, slot(), eiter(), slot()]
        elif n in ('tag', 'get', 'del'):
            op = [n, slot(), oid()]
        elif n == 'set':
            op = [n, slot(), oid(), [oid() for _ in range(rng.choice([1, 1, 1, 2, 3]))], rng.randrange(10)]
        elif n in ('relimg', 'covers', 'restricted'):
            op = [n, slot(), niter(), slot()]
        elif n == 'iter':
            op = [n, slot(), rng.randrange(3)]
        elif n == 'next':
            op = [n, rng.randrange(3), rng.choice([1, 1, 2, 5, 99])]
        elif n == 'dropiter':
            op = [n, rng.randrange(3)]
        elif n == 'setref':
            op = [n, oid(), slot()]
        elif n == 'loop':
            op = [n, slot(), rng.randrange(4), script()]
        if style == 'alloc' and n not in NOFAIL and not (n == 'ctor' and op[3] == 2) and rng.random() < .5:
            op.append(dict(fail=[rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 14, 20]), rng.choice([1, 1, 1, 2, 50])]))
        ops.append(op)
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    c = plan['cfg']
    for n in (1, 2, 3, 5, 8):
        if n < c['n0']:
            yield dict(plan, cfg=dict(c, n0=n))
    if c['spacing']:
        yield dict(plan, cfg=dict(c, spacing=0))
    for k in c.get('scripts', {}):
        yield dict(plan, cfg=dict(c, scripts={a: b for a, b in c['scripts'].items() if a != k}))
    for i, op in enumerate(plan['ops']):
        for j, x in enumerate(op):
            if isinstance(x, dict):
                for key in ('ids', 'e'):
                    if len(x.get(key, ())) > 1:
                        for k in range(len(x[key])):
                            y = dict(x, **{key: x[key][:k] + x[key][k + 1:]})
                            yield dict(plan, ops=plan['ops'][:i] + [op[:j] + [y] + op[j + 1:]] + plan['ops'][i + 1:])
