"""C08: partitions of sets of real objects under generated classifications,
against an independent classification of every object; earlier kinds are used
again later, after collections, dead types, failing and interrupted uses."""
import gc, sys, types, tracemalloc, re
from functools import partial
import simrt, interp, graphworld as gw
from simctx import Violation, HarnessError, need
from prop_c04 import name
from prop_c07 import fault

BASE = ['Type', 'Clodo', 'Id', 'Size', 'Unity', 'Module', 'Rcs', 'Via', 'Idset']
CMPS = ['<', '<=', '==', '!=', '>', '>=']


def setup():
    global hp, V, SIZES
    from guppy import hpy
    gc.collect()
    gc.disable()
    hp = hpy()
    V = hp.View
    gw.basics()
    V.root = H = [[{}], types.ModuleType('m')]
    hp.heap()
    s = hp.idset([{}, [], H[1]])
    for k in BASE:
        p = s.by(k).partition
        repr(s.by(k)), p.get_stat(), s.by(k)[0], s.by(k)[0:1], s.by(k).kind, s & s.by(k)[0].kind
    tracemalloc.start()
    repr(s.byprod), s.byprod.kind
    tracemalloc.stop()
    k = hp.Type(list)
    repr(hp.iso(1)), s.by(k.biper), s.by(hp.Clodo.dictof), s.by(hp.Type.refdby), s.by(hp.Type & hp.Size), hp.Size(56).alt('<'), hp.findex(k, ~k)
    repr(s.by(hp.findex(k, k | hp.Type(dict)))), repr(s.by(hp.Type.dictof)), repr(s.by(hp.Type & hp.Size)), k.dictof, repr(s.by(k.biper.refdby))
    s & (k & hp.Size(56)), s & ~k, s - k, s & (k.alt('<=') | hp.Type(dict))
    interp.setup()
    V.root = V.heapyc.RootState
    SIZES = [16, 24, 28, 48, 56, 64, 100]


def sizeof(boom, n):
    boom[0] -= 1
    if boom[0] == 0:
        raise [ValueError, ZeroDivisionError][boom[1] % 2]('sizeof')
    return n


def yes(*a):
    return True


class W(gw.GW):
    def __init__(self, ctx, cfg):
        gw.GW.__init__(self, ctx, V, hp, cfg)
        self.H = [self.R, 'root']
        V.root = self.H
        self.saved = []
        self.ers = []
        self.sizes = {}
        self.keep = []
        self.boom = [0, 0]       # calls until __sizeof__ raises, size reported
        self.forget()

    def forget(self):
        self.rg = self.st = None
        self.own = self.sown = None

    def close(self):
        self.forget()
        self.saved = self.ers = self.keep = None
        self.R.clear()
        self.H.clear()

    def referrers(self, o):
        if self.rg is None:
            c = self.closure([self.H])
            self.rg = rg = {}
            for i, p in c.items():
                for r in self.refs(p):
                    rg.setdefault(id(r), {})[i] = p
        return self.rg.get(id(o), {}).values()

    def owners(self, d):
        if self.own is None:
            self.own, self.sown = {}, {}
            simrt.owner_map(gc.get_objects(), self.own)
            simrt.owner_map(self.statics(), self.sown)
        r = self.own.get(id(d))
        if r is None:
            r = self.sown.get(id(d))
            if r and not any(x is r[0] for x in V.hv.static_types):
                raise Unclear
        return r or []

    def statics(self):
        if self.st is None:
            self.st = [o for o in self.closure([self.H]).values() if isinstance(o, type) and not gc.is_tracked(o)]
        return self.st

    def size(self, o):
        if isinstance(o, (self.NS, self.NG)):
            return V.hv.indisize_sum([o])
        t = type(o)
        if id(t) in self.sizes:
            return self.sizes[id(t)] + (16 if gc.is_tracked(o) or t.__flags__ & (1 << 14) else 0) + (16 if t.__flags__ & (1 << 4) else 0)
        return sys.getsizeof(o)

    def do(self, op):
        k = op[0]
        if k == 'sized':
            # an object that says how big it is; __sizeof__ may fail
            # (a partial is called without the object, and is no node for other operations)
            o = type('Xsize', (), {'__sizeof__': partial(sizeof, self.boom, op[1]), '__module__': gw.__name__})()
            self.sizes[id(type(o))] = op[1]
            self.keep.append(type(o))
            self.R.append(o)
        elif k == 'meta':
            # a class whose metaclass has its own idea of equality
            d = {'__module__': gw.__name__, '__eq__': partial(yes)}
            if op[1] % 3:
                d['__hash__'] = partial(yes)
            M = type('XM', (type,), d)
            c = M('XC', (), {'__module__': gw.__name__})
            self.R.append(c())
            if op[1] % 2:
                self.R.append(c)
                self.R.append(M('XD', (), {'__module__': gw.__name__})())
        elif k == 'retype':
            # a class dies and another comes, maybe at its address
            cs = [o for o in self.R if type(type(o)) is type and type(o).__name__[0] == 'X']
            if cs:
                o = cs[op[1] % len(cs)]
                self.R[:] = [x for x in self.R if x is not o]
            cs = o = None
            self.ctx.probe('retype')
            if op[2] % 2:
                gc.collect()
            for i in range(op[2] % 4 + 1):
                self.R.append(type(self.name('X'), (), {})())
        else:
            return gw.GW.do(self, op)
        return True


# -- classifications: the real thing, and the model of it -------------

def pick(w, i):
    return w.pool[i % len(w.pool)]


def sub(a, b):
    return any(x is b for x in a.__mro__)


def mk_kind(w, s):
    """-> kind, predicate"""
    k = s[0]
    if k == 'type':
        t = type(pick(w, s[1]))
        return hp.Type(t), lambda o: type(o) is t
    if k == 'typealt':
        t = type(pick(w, s[1]))
        c = s[2]
        f = {'<': lambda a: a is not t and sub(a, t), '<=': lambda a: sub(a, t), '==': lambda a: a is t, '!=': lambda a: a is not t,
             '>': lambda a: a is not t and sub(t, a), '>=': lambda a: sub(t, a)}[c]
        return hp.Type(t).alt(c), lambda o: f(type(o))
    if k == 'size':
        n = w.size(pick(w, s[1]))
        c = s[2]
        f = {'<': int.__lt__, '<=': int.__le__, '==': int.__eq__, '!=': int.__ne__, '>': int.__gt__, '>=': int.__ge__}[c]
        return hp.Size(n).alt(c), lambda o: f(w.size(o), n)
    if k == 'iso':
        os = [pick(w, i) for i in s[1]]
        ids = {id(o) for o in os}
        return hp.iso(*os), lambda o, os=os: id(o) in ids
    if k == 'dictof':
        a, f = mk_kind(w, s[1])
        return a.dictof, lambda o: type(o) is dict and any_all(map(f, w.owners(o)), False)
    if k == 'nodict':
        return hp.Clodo(dictof=()), lambda o: type(o) is dict and not w.owners(o)
    if k == 'not':
        a, f = mk_kind(w, s[1])
        return ~a, lambda o: not f(o)
    if k in ('or', 'and'):
        (a, f), (b, g) = mk_kind(w, s[1]), mk_kind(w, s[2])
        return (a | b, lambda o: f(o) or g(o)) if k == 'or' else (a & b, lambda o: f(o) and g(o))
    raise HarnessError(k)


class Unclear(Exception):
    """the model does not tell: a dict with several owners"""


def any_all(it, default):
    l = {bool(x) for x in it}
    if len(l) > 1:
        raise Unclear
    return l.pop() if l else default


def mk_er(w, s):
    """-> equivalence relation, key function, needs a fresh collection"""
    k = s[0]
    if k == 'Type':
        return hp.Type, lambda o: id(type(o))
    if k == 'Unity':
        return hp.Unity, lambda o: 0
    if k in ('Id', 'Idset'):
        return getattr(hp, k), lambda o: id(o)
    if k == 'Size':
        return hp.Size, lambda o: w.size(o)
    if k == 'Module':
        return hp.Module, lambda o: id(o) if type(o) is types.ModuleType else 0
    if k == 'Clodo':
        return hp.Clodo, lambda o: ('d', dictkey(w, o, lambda x: id(type(x)))) if type(o) is dict else id(type(o))
    if k == 'Rcs':
        return hp.Rcs, refkey(w, mk_er(w, ['Clodo'])[1])
    if k == 'Via':
        def via(o):
            if w.hidden(o):
                raise Unclear
            r = set()
            for p in w.referrers(o):
                for i, l in enumerate(w.hv.relate(p, o)):
                    for x in l:
                        try:
                            hash(x)
                        except Exception:
                            raise Unclear
                        r.add((i, type(x), repr(x) if type(x) in (str, int) else id(x)))
            return frozenset(r)
        return hp.Via, via
    if k == 'Prod':
        def prod(o):
            t = tracemalloc.get_object_traceback(o)
            return (t[0].filename, t[0].lineno) if t else None
        return hp.Prod, prod
    if k == 'dictof':
        e, f = mk_er(w, s[1])
        return e.dictof, lambda o: dictkey(w, o, f) if type(o) is dict else 'notdict'
    if k == 'refdby':
        e, f = mk_er(w, s[1])
        return e.refdby, refkey(w, f)
    if k == 'and':
        (a, f), (b, g) = mk_er(w, s[1]), mk_er(w, s[2])
        return a & b, lambda o: (f(o), g(o))
    if k == 'biper':
        a, f = mk_kind(w, s[1])
        return a.biper, lambda o: bool(f(o))
    if k == 'findex':
        ks = [mk_kind(w, x) for x in s[1]]

        def fi(o):
            for i, (a, f) in enumerate(ks):
                if f(o):
                    return i
            return len(ks)
        return hp.findex(*[a for a, f in ks]), fi
    raise HarnessError(k)


def dictkey(w, d, f):
    ks = {f(x) for x in w.owners(d)}
    if len(ks) > 1:
        raise Unclear
    return ('of', ks.pop()) if ks else 'notowned'


def refkey(w, f):
    def key(o):
        if w.hidden(o):
            # the owner of a dict that can be seen
            raise Unclear
        return frozenset(f(p) for p in w.referrers(o))
    return key


def uses(s, names):
    if isinstance(s, list):
        return (bool(s) and isinstance(s[0], str) and s[0] in names) or any(uses(x, names) for x in s)
    return False


# ---------------------------------------------------------------------

def keys(w, f, objs):
    """the model's class of each object (id -> key); objects it cannot tell are left out"""
    d = {}
    for o in objs:
        try:
            d[id(o)] = f(o)
        except Unclear:
            pass
    return d


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    if cfg.get('trace'):
        tracemalloc.start()
    w = W(ctx, cfg)
    try:
        for op in plan['ops']:
            ctx.step()
            w.forget()
            if w.do(op):
                ctx.log(*op, len(w.R))
                continue
            k = op[0]
            w.boom[0] = 0
            if k == 'part':
                part(w, ctx, op)
            elif k == 'select':
                select(w, ctx, op)
            elif k == 'again':
                again(w, ctx, op)
            else:
                raise HarnessError(k)
        w.close()
    finally:
        if cfg.get('trace'):
            tracemalloc.stop()
    gc.collect()
    simrt.check()


def theset(w, sel):
    """the objects of one query"""
    ns = [o for o in w.nodes() if not w.hidden(o)]
    w.pool = ns
    if sel == 'all':
        # static types the view has seen are owners
        if w.ctx.steps % 2:
            V.hv.heap()
        l = list(w.closure([w.H]).values())
        # a sample of them
        return l[:100] + l[100::len(l) // 200 + 1]
    if sel == 'nodes':
        return ns
    return list({id(o): o for o in (ns[i % len(ns)] for i in sel)}.values())


def exact(w, spec):
    """owners and referrers are as of the last collection: make it now"""
    if uses(spec, ('Clodo', 'Rcs', 'Via', 'dictof', 'nodict', 'refdby')):
        gc.collect()
        w.forget()


def guarded(w, ctx, op, f):
    """f, with the faults of this operation"""
    flt = op[-1] if isinstance(op[-1], dict) else {}
    if flt.get('boom'):
        w.boom[:] = flt['boom']
        try:
            r = f()
            if w.boom[0] < 0:
                raise Violation('error-lost', 'an exception raised by __sizeof__ was swallowed')
            return r
        except (ValueError, ZeroDivisionError) as e:
            if e.args != ('sizeof',):
                raise
            ctx.fault('sizeof')
        finally:
            w.boom[0] = 0
        return f()
    return fault(ctx, flt.get('at'), f)


def flat(s):
    """can be used on many objects"""
    return len(s) == 1 and s[0] not in ('Id', 'Idset') or s[0] in ('refdby', 'dictof') and s[1][0] in ('Type', 'Size', 'Clodo', 'Module', 'Unity')


def part(w, ctx, op):
    X = theset(w, 'nodes' if op[2] == 'all' and not flat(op[1]) else op[2])
    if uses(op[1], ('Id', 'Idset', 'Prod')) or len(str(op[1])) > 30:
        del X[40:]          # as many classes as objects, and a union of kinds for each
    exact(w, op[1])
    try:
        er, f = mk_er(w, op[1])
    except Unclear:
        ctx.log('unclear')
        return
    w.ers.append((er, f, op[1]))
    partition(w, ctx, op, X, er, f, op[1], op[3])
    X = er = f = None


def partition(w, ctx, op, X, er, f, spec, acc):
    x = hp.idset(X)

    def get():
        y = hp.idset(X).by(er)
        return y, y.partition
    x, p = guarded(w, ctx, op, get)
    if not X:
        return
    rows = list(p.get_rows())
    byid = {id(o): o for o in X}
    seen = {}
    for i, r in enumerate(rows):
        need(r.index == i, 'wrong-row', lambda: 'row %d has index %s' % (i, r.index))
        if spec[0] == 'Id':
            need(r.count == 1, 'wrong-row', 'identity partition with a row of %d objects' % r.count)
        n = 0
        for o in r.set.nodes:
            n += 1
            need(id(o) in byid, 'not-member', lambda: 'row %d has %s that is not in the set' % (i, name(o)))
            need(id(o) not in seen, 'twice', lambda: '%s is in rows %d and %d' % (name(o), seen[id(o)], i))
            seen[id(o)] = i
        o = None
        need(n == r.count == r.set.count, 'wrong-count', lambda: 'row %d: count %d, has %d' % (i, r.count, n))
        sz = sum(w.size(o) for o in r.set.nodes)
        need(sz == r.size, 'wrong-size', lambda: 'row %d (%s): size %d, its objects have %d' % (i, r.name, r.size, sz))
        sets = None
    need(len(seen) == len(byid), 'lost', lambda: 'objects in no row: %s' % [name(byid[i]) for i in byid if i not in seen][:3])
    need(p.count == len(byid) == x.count == sum(r.count for r in rows), 'wrong-count', 'total count')
    tot = sum(w.size(o) for o in X)
    need(p.size == tot == x.size, 'wrong-size', lambda: 'total size %d %d, objects have %d' % (p.size, x.size, tot))
    cum = 0
    last = None
    for r in rows:
        need(last is None or last >= r.size, 'order', 'rows not sorted by size')
        last = r.size
        cum += r.size
        need(r.cumulsize == cum, 'wrong-size', lambda: 'cumulative size %d, is %d' % (r.cumulsize, cum))
    need(p.numrows == len(rows) == len(x), 'wrong-row', 'number of rows')
    # the classes are those of the model
    m = keys(w, f, X)
    kr, rk = {}, {}
    for i, k in m.items():
        r = seen[i]
        a = rk.setdefault(r, (k, i))
        b = kr.setdefault(k, (r, i))
        need(a[0] == k, 'wrong-class', lambda: '%s by %s: together with %s' % (name(byid[i]), spec, name(byid[a[1]])))
        need(b[0] == r, 'wrong-class', lambda: '%s by %s: not with %s' % (name(byid[i]), spec, name(byid[b[1]])))
    # selecting
    for n in acc:
        r = rows[n % len(rows)]
        s = x & r.kind
        need(s.nodes == r.set.nodes, 'select', lambda: 'selecting row %d %s by %s gives %s, the row has %s' % (
            n % len(rows), r.name, spec, names(s.nodes), names(r.set.nodes)))
        o = X[n % len(X)]
        need((o in r.kind) == (seen[id(o)] == n % len(rows)), 'select', lambda: '%s in kind of row %d (%s): %s' % (name(o), n % len(rows), r.name, o in r.kind))
        # classified alone
        a = hp.iso(o).by(er).kind
        need((x & a).nodes == rows[seen[id(o)]].set.nodes, 'alone', lambda: '%s classified alone is %s' % (name(o), a))
        t = x[n % len(rows)]
        need(t.nodes == r.set.nodes, 'index', lambda: 'row %d by index is another set' % n)
        need(x[n % len(rows) - len(rows)].nodes == r.set.nodes, 'index', 'negative index')
        # the one row alone is a table of its own
        q = t.partition
        need(q.count == r.count and q.size == r.size, 'wrong-count', 'partition of one row')
        qc = 0
        for j, qr in enumerate(q.get_rows()):
            qc += qr.size
            need(qr.index == j and qr.cumulsize == qc, 'wrong-row', lambda: 'partition of row %d of a set: its row %d has index %s, cumulative size %s of %s' % (
                n, j, qr.index, qr.cumulsize, q.size))
        lo, hi, st = sorted((n % (len(rows) + 1), (n * 7) % (len(rows) + 2))) + [n % 3 + 1]
        want = {i for i in seen if seen[i] in range(lo, hi, st)}
        got = {id(o) for o in x[lo:hi:st].nodes}
        need(got == want, 'slice', lambda: '[%d:%d:%d] of %d rows' % (lo, hi, st, len(rows)))
        w.saved.append((er, f, spec, r.kind, m.get(id(next(iter(r.set.nodes))), Unclear)))
    k = x.kind
    need((x & k).nodes == x.nodes, 'kind', lambda: 'the kind of a set has not all its objects: %s' % names(x.nodes - (x & k).nodes))
    st = p.get_stat()
    need([(r.count, r.size, label(r)) for r in st.get_rows()] == [(r.count, r.size, label(r)) for r in rows],
         'stat', 'statistics differ from the partition')
    ctx.log('part', spec, [(r.count, r.size if spec[0] != 'Rcs' else 0) for r in rows] if not uses(spec, ('Id', 'Idset')) else len(rows))
    ctx.state(spec[0], len(X).bit_length(), len(rows).bit_length(), uses(spec, ('refdby',)), uses(spec, ('dictof',)))
    if len(w.saved) > 40:
        del w.saved[:20]


def label(r):
    # the length of a dict of the interpreter may change
    return re.sub(r'\*[0-9]+', '*', r.name.split('\n')[0])


def names(ns):
    return '%d objects (%s)' % (len(ns), ', '.join(sorted(name(o) for o in ns)[:3]))


def select(w, ctx, op):
    """select a kind made by the user"""
    X = theset(w, op[2])
    exact(w, op[1])
    try:
        k, f = mk_kind(w, op[1])
        x = hp.idset(X)
        got = guarded(w, ctx, op, lambda: x & k)
        rest = x - k
        got = {id(o) for o in got.nodes}
        rest = {id(o) for o in rest.nodes}
        for o in X:
            try:
                m = bool(f(o))
            except Unclear:
                continue
            need((id(o) in got) == m, 'select', lambda: '%s %s by %s' % (name(o), 'missing' if m else 'selected', op[1]))
            need((id(o) in rest) != m, 'select', lambda: 'difference: %s %s by %s' % (name(o), 'kept' if m else 'missing', op[1]))
        for i in op[3]:
            o = X[i % len(X)]
            try:
                m = bool(f(o))
            except Unclear:
                continue
            need((o in k) == m, 'select', lambda: '%s in %s: %s' % (name(o), op[1], not m))
    except Unclear:
        pass
    o = X = k = f = x = None
    ctx.log('select', op[1], len(got) if 'got' in locals() else '')
    ctx.state('select', op[1][0], [y[0] for y in op[1][1:] if isinstance(y, list) and y and isinstance(y[0], str)])


def again(w, ctx, op):
    """an earlier kind or equivalence relation, on the objects there are now"""
    X = theset(w, op[2])
    x = hp.idset(X)
    if op[3] % 3 == 0 and w.ers:
        er, f, spec = w.ers[op[1] % len(w.ers)]
        exact(w, spec)
        partition(w, ctx, op, X, er, f, spec, [op[3]])
        return
    if not w.saved:
        return
    er, f, spec, kind, key = w.saved[op[1] % len(w.saved)]
    if key is Unclear:
        return
    if uses(spec, ('Prod', 'Via')):
        return
    exact(w, spec)
    s = guarded(w, ctx, op, lambda: x & kind)
    got = {id(o) for o in s.nodes}
    m = keys(w, f, X)
    for o in X:
        if id(o) in m:
            try:
                same = m[id(o)] == key
            except Unclear:
                continue
            need((id(o) in got) == same, 'history', lambda: 'an earlier kind by %s %s %s' % (spec, 'lacks' if same else 'has', name(o)))
    o = None
    ctx.log('again', spec, len(got))
    ctx.probe('again')


# ---------------------------------------------------------------------

def r(rng):
    return rng.choice([0, rng.randrange(4), rng.randrange(12), rng.randrange(60), rng.randrange(1000)])


def gkind(rng, d=0):
    k = rng.choice(['type', 'type', 'typealt', 'size', 'iso', 'dictof', 'nodict'] + (['not', 'or', 'and', 'or', 'and'] if d < 2 else []))
    if k == 'type':
        return [k, r(rng)]
    if k in ('typealt', 'size'):
        return [k, r(rng), rng.choice(CMPS)]
    if k == 'iso':
        return [k, [r(rng) for _ in range(rng.choice([1, 1, 2, 4]))]]
    if k == 'dictof':
        return [k, ['type', r(rng)] if rng.random() < .7 else ['iso', [r(rng)]]]
    if k == 'nodict':
        return [k]
    if k == 'not':
        return [k, gkind(rng, d + 1)]
    return [k, gkind(rng, d + 1), gkind(rng, d + 1)]


def ger(rng, bases, d=0):
    k = rng.choice(bases)
    if d and k == 'Idset':
        # documented as being for special internal use
        k = 'Id'
    if k in ('dictof', 'refdby', 'and', 'biper', 'findex') and d >= 2:
        k = rng.choice(['Type', 'Clodo', 'Size', 'Id'])
    if k in ('dictof', 'refdby'):
        return [k, ger(rng, bases, d + 1)]
    if k == 'and':
        return [k, ger(rng, bases, d + 1), ger(rng, bases, d + 1)]
    if k == 'biper':
        return [k, gkind(rng, 1)]
    if k == 'findex':
        return [k, [gkind(rng, 1) for _ in range(rng.randrange(1, 4))]]
    return [k]


def gen(rng, tier):
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), deep=rng.choice([3, 10]))
    wts, kinds = gw.swarm(rng)
    wts['gc'] = rng.choice([0, 1])
    bases = [b for b in BASE + ['dictof', 'refdby', 'and', 'biper', 'findex'] if rng.random() < .5] or ['Clodo']
    if rng.random() < .06:
        cfg['trace'] = 1
        bases.append('Prod')
    special = rng.random()
    ops = []

    def sel():
        q = rng.random()
        return 'all' if q < .15 else 'nodes' if q < .45 else [r(rng) for _ in range(rng.choice([1, 2, 4, 8]))]

    def flt(boom):
        q = rng.random()
        if q < .15:
            return [dict(at=[rng.choice([1, 2, 5, rng.randrange(1, 40), rng.randrange(1, 200)]), rng.choice([0, 0, 3]), rng.randrange(2)])]
        if boom and q < .5:
            return [dict(boom=[rng.randrange(1, 6), rng.randrange(3)])]
        return []
    for _ in range(rng.choice([1, 2, 3, 5])):
        ops += gw.genops(rng, rng.choice([2, 5, 10]), kinds, wts)
        if special < .15:
            ops.append(['sized', rng.choice([0, 8, 24, 56, 1000])])
        elif special < .25:
            ops.append(['meta', rng.randrange(6)])
        elif special < .4:
            ops.append(['retype', r(rng), rng.randrange(8)])
        for _ in range(rng.choice([1, 2, 3])):
            q = rng.random()
            f = flt(special < .15)
            if q < .6:
                ops.append(['part', ger(rng, bases), sel(), [rng.randrange(1000) for _ in range(rng.choice([0, 1, 3]))]] + f)
            elif q < .85:
                ops.append(['select', gkind(rng), sel(), [rng.randrange(1000) for _ in range(rng.choice([0, 1, 3]))]] + f)
            else:
                ops.append(['again', r(rng), sel(), rng.randrange(9)] + f)
    if rng.random() < .1:
        # similar objects, and classifications that are derived from them
        k = rng.choice(['list', 'tuple', 'cell', 'dict'])
        at = rng.randrange(len(ops) + 1)
        d, e = rng.choice(['refdby', 'refdby', 'dictof']), rng.choice(['biper', 'findex'])
        iso = lambda i: [d, [e, ['iso', [i]] if e == 'biper' else [['iso', [i]]]]]
        ops[at:at] = [['new', k, 0, 0, 0, 1] for _ in range(3)]
        at += 3
        for i in rng.sample(range(1, 6), 3):
            at = rng.randrange(at, len(ops) + 1)
            ops.insert(at, ['part', iso(i), 'nodes', [rng.randrange(1000)]])
            at += 1
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    c = plan['cfg']
    if c['deep'] > 3:
        yield dict(plan, cfg=dict(c, deep=3))
    if c['mode']:
        yield dict(plan, cfg=dict(c, mode=0))
    for i, op in enumerate(plan['ops']):
        if op[0] in ('part', 'select', 'again'):
            if isinstance(op[-1], dict):
                yield dict(plan, ops=plan['ops'][:i] + [op[:-1]] + plan['ops'][i + 1:])
            if op[2] == 'all':
                yield dict(plan, ops=plan['ops'][:i] + [op[:2] + ['nodes'] + op[3:]] + plan['ops'][i + 1:])
            for s in subspecs(op[1]):
                yield dict(plan, ops=plan['ops'][:i] + [op[:1] + [s] + op[2:]] + plan['ops'][i + 1:])


def subspecs(s):
    if isinstance(s, list):
        if s and s[0] in ('not', 'or', 'and'):
            yield from s[1:]
        if s and s[0] == 'findex' and len(s[1]) > 1:
            for i in range(len(s[1])):
                yield ['findex', s[1][:i] + s[1][i + 1:]]
