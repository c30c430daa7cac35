"""A world of real Python objects hanging off one root list, changed by
generated operations, and an independent view of its reference graph.

Operations are [name, int...]; the integers select live objects modulo their
number, so that every plan (and every part of one) can be run.
The oracle graph is read with gc.get_referents and, where that is silent
(types, code, frames), from the interpreter's structures by simrt.
"""
import gc, sys, types, weakref
import simrt
from simctx import need

TAGNAME = '_hiding_tag_'


def basics():
    """created once per zygote"""
    global GLOB, FCODE, GCODE, WORLD, WORLD_IDS, FR, CELL, PROXY
    ns = {}
    exec("def f(x=None, *a):\n return x\n"
         "def mk(x, y):\n"
         " def c(z=None, *a):\n  return x, y\n"
         " return c\n"
         "def g(x, y):\n yield x\n z = [x]\n yield y\n yield z\n"
         "def d(x, y):\n def c(): return x, y\n z = [x]\n yield c\n"
         "def g2(x, y):\n while 1:\n  yield x\n  z = [x]\n  yield y\n", ns)
    FCODE = ns['f'].__code__
    global CCODE
    CCODE = [k for k in ns['mk'].__code__.co_consts if isinstance(k, types.CodeType)][0]
    GCODE = ns['g'].__code__
    global G2CODE
    global DCODE
    DCODE = ns['d'].__code__
    G2CODE = ns['g2'].__code__      # never ends: a frame object that outlives its generator would refer to our stack
    for c in FCODE, CCODE, GCODE, G2CODE, DCODE:
        c.co_varnames
    FR, CELL, PROXY = types.FrameType, types.CellType, types.MappingProxyType
    WORLD = {list, tuple, dict, set, frozenset, types.FunctionType, CELL, types.GeneratorType, types.MethodType,
             types.ModuleType, types.SimpleNamespace, weakref.ref, PROXY, FR, ValueError, KeyError}
    WORLD_IDS = {id(t) for t in WORLD}


KINDS = ['list', 'tuple', 'dict', 'dictkey', 'set', 'frozenset', 'inst', 'slots', 'class', 'listsub', 'dictsub', 'func',
         'closure', 'cell', 'gen', 'method', 'module', 'ns', 'exc', 'weakref', 'proxy', 'leaf', 'nodeset', 'nodegraph',
         'frame', 'instdict', 'deep', 'deadframe']
HKINDS = ['h_iso', 'h_idset', 'h_nodeset', 'h_inst', 'h_slot', 'h_exact', 'h_graph', 'h_kind', 'h_slotdict']


class GW:
    def __init__(self, ctx, view, hpy, cfg):
        self.ctx = ctx
        self.view = view
        self.hv = view.hv
        self.hpy = hpy
        self.tag = view._hiding_tag_
        self.cfg = cfg
        self.R = []
        self.ser = 0
        self.gens = []
        self.glob = {'__builtins__': {}}
        self.he = []            # types registered for hiding by tag
        self.hexact = [view.gchook_type]
        U = view._parent.UniSet
        self.he = [U.Kind, U.IdentitySetMulti, U.IdentitySetSingleton]
        self.NS = view.NodeSet
        self.NG = view.heapyc.NodeGraph
        self.kinds = cfg.get('kinds') or KINDS

    # -- reading ------------------------------------------------------
    def hidden(self, o):
        t = type(o)
        for c in self.he:
            if c in t.__mro__:
                # not by getattr: the collector may have cleared the object, when a frame resurrects it
                try:
                    return object.__getattribute__(o, TAGNAME) is self.tag
                except AttributeError:
                    return False
        if any(t is x for x in self.hexact):
            return True
        if t is type(self.view.heapyc.RootState):
            return True
        d = self.dictof(o)
        return d is not None and dict.get(d, TAGNAME) is self.tag

    def dictof(self, o):
        """the dict of an instance, by the interpreter's own rules"""
        return simrt.dictof(o)

    def refs(self, o):
        if isinstance(o, type):
            # tp_traverse of the metatype is not used for types
            return simrt.type_refs(o)
        t = type(o)
        if t is types.CodeType:
            return simrt.code_refs(o)
        if t is FR:
            c = o.f_code
            if c is not G2CODE and TAGNAME in c.co_varnames and o.f_locals.get(TAGNAME) is self.tag:
                return []
            return simrt.frame_refs(o)
        if isinstance(o, dict) and dict.get(o, TAGNAME) is self.tag:
            return []
        if isinstance(o, (self.NS, self.NG)) and getattr(o, TAGNAME, None) is self.tag:
            return []
        if simrt.managed(o):
            simrt.dictof(o)
        return gc.get_referents(o)

    def closure(self, start, avoid=(), x=False, all_hidden=False):
        """ids -> object of everything reachable; hidden objects are not entered"""
        avoid = {id(o) for o in avoid}
        seen = {}
        todo = []
        for o in start:
            if id(o) in seen or (id(o) in avoid and not x):
                continue
            if self.hidden(o):
                continue
            seen[id(o)] = o
            if id(o) not in avoid:
                todo.append(o)
        while todo:
            o = todo.pop()
            for r in self.refs(o):
                i = id(r)
                if i in seen or (i in avoid and not x):
                    continue
                if self.hidden(r):
                    continue
                seen[i] = r
                if i not in avoid:
                    todo.append(r)
        return seen

    def isworld(self, o):
        t = type(o)
        if id(t) in WORLD_IDS:
            return True
        if isinstance(o, type):
            return o.__name__[0] == 'X' and getattr(o, '__module__', None) == __name__
        return t.__name__[0] == 'X' and getattr(t, '__module__', None) == __name__ or isinstance(o, (self.NS, self.NG)) or any(t is x for x in self.he)

    def wrefs(self, o):
        if isinstance(o, type):
            return list(vars(o).values()) + list(o.__bases__)
        return gc.get_referents(o)

    def nodes(self):
        """the objects operations may choose from, in a fixed order"""
        seen = {id(self.R)}
        order = [self.R]
        for o in order:
            if o is self.glob:
                continue
            for r in self.wrefs(o):
                if id(r) not in seen and r is not self.glob and r is not self.tag and self.isworld(r):
                    seen.add(id(r))
                    order.append(r)
                    if len(order) > 400:
                        return order
        return order

    # -- changing -----------------------------------------------------
    def name(self, p='k'):
        self.ser += 1
        return '%s%d' % (p, self.ser)

    def new(self, kind, x, y, n, ns=None):
        def pick(test, default):
            for o in (ns or ())[n % 7:] + (ns or ())[:n % 7]:
                if test(o):
                    return o
            return default()

        def aclass(*bases, **kw):
            d = dict(kw)
            return type(self.name('X'), bases, d)

        def hashable(o):
            return type(o) in (types.FunctionType, CELL, types.GeneratorType, types.ModuleType, str) or \
                isinstance(o, type) and type(o).__hash__ is not None or (type(o).__name__[0] == 'X' and type(o).__hash__ is not None and not isinstance(o, (list, dict)))

        def key(o):
            return o if hashable(o) and type(o) is not CELL else self.name()
        isclass = lambda o: isinstance(o, type) and o.__flags__ & (1 << 9) and not issubclass(o, (list, dict)) \
            and '__slots__' not in vars(o) and o not in self.he and o not in self.hexact and o.__dictoffset__
        if kind == 'list':
            return [x, y]
        if kind == 'tuple':
            return (x, y)
        if kind == 'dict':
            return {self.name(): x, 'b': y}
        if kind == 'dictkey':
            return {key(x): y}
        if kind == 'set':
            return {key(x), key(y)}
        if kind == 'frozenset':
            return frozenset((key(x), key(y)))
        if kind == 'inst':
            o = pick(isclass, aclass)()
            o.a0 = x
            if n % 3:
                o.a1 = y
            return o
        if kind == 'slots':
            o = aclass(__slots__=('s0', 's1', '__weakref__'))()
            o.s0 = x
            if n % 2:
                o.s1 = y
            return o
        if kind == 'class':
            b = pick(isclass, lambda: None)
            c = aclass(*([b] if b is not None and n % 2 else []))
            c.a0 = x
            return c
        if kind == 'listsub':
            o = aclass(list)([x])
            o.a0 = y
            return o
        if kind == 'dictsub':
            o = aclass(dict)(k=x)
            o.a0 = y
            return o
        if kind == 'func':
            f = types.FunctionType(FCODE, self.glob, self.name('f'), (x,))
            if n % 2:
                f.a0 = y
            return f
        if kind == 'closure':
            c = x if type(x) is CELL else CELL(x)
            d = y if type(y) is CELL else CELL(y)
            return types.FunctionType(CCODE, self.glob, self.name('f'), None, (c, d))
        if kind == 'cell':
            return CELL(x)
        if kind == 'gen':
            g = types.FunctionType(G2CODE if n & 8 else GCODE, self.glob, self.name('g'))(x, y)
            for _ in range(n % 4):
                next(g)
            return g
        if kind == 'method':
            f = x if type(x) is types.FunctionType else types.FunctionType(FCODE, self.glob, self.name('f'))
            return types.MethodType(f, y)
        if kind == 'module':
            m = types.ModuleType(self.name('m'))
            m.a0 = x
            return m
        if kind == 'ns':
            return types.SimpleNamespace(a0=x, a1=y)
        if kind == 'exc':
            e = ValueError(x)
            if isinstance(y, BaseException):
                e.__cause__ = y
            else:
                e.a0 = y
            return e
        if kind == 'weakref':
            o = pick(lambda o: type(o) in (types.FunctionType, set, types.GeneratorType) or isclass(o) or
                     type(type(o)) is type and isclass(type(o)), lambda: None)
            if o is None:
                return weakref.ref(type(self.name('X'), (), {}))
            if n % 3 == 0 and type(y) is types.FunctionType and y.__code__ is FCODE:
                return weakref.ref(o, y)
            return weakref.ref(o)
        if kind == 'proxy':
            return PROXY(x if type(x) is dict else {self.name(): x})
        if kind == 'leaf':
            return [self.name('s') * 3, 10 ** 9 + self.ser, 1.5 + self.ser, b'b%d' % self.ser, complex(self.ser, 1)][n % 5]
        if kind == 'nodeset':
            s = self.view._root.guppy.sets
            return s.MutNodeSet([x, y]) if n % 2 else s.ImmNodeSet([x, y])
        if kind == 'nodegraph':
            return self.NG([(x, y), (y, x)])
        if kind == 'frame':
            g = pick(lambda o: type(o) is types.GeneratorType and o.gi_code is G2CODE, lambda: None)
            if g is None:
                g = types.FunctionType(G2CODE, self.glob, self.name('g'))(x, y)
                self.R.append(g)
            # the collector may clear what a generator holds while its frame, and so that, is reachable
            self.gens.append(g)
            return g.gi_frame
        if kind == 'deadframe':
            # outlives its generator, which has not run
            g = types.FunctionType(DCODE, self.glob)(x, y)
            o = g.gi_frame
            g = None
            if n % 3 == 0:
                o.clear()
            return o
        if kind == 'instdict':
            o = pick(lambda o: isclass(type(o)), lambda: aclass()())
            o.a2 = x
            if n % 2:
                self.R.append(o)
            return o.__dict__
        if kind == 'deep':
            o = x
            k = n % 4
            for i in range(self.cfg.get('deep', 50)):
                o = [o] if k == 0 else (o,) if k == 1 else {'d': o} if k == 2 else CELL(o)
            return o
        # objects hidden from the view
        if kind == 'h_iso':
            return self.hpy.iso(x)
        if kind == 'h_idset':
            return self.hpy.idset([x, y])
        if kind == 'h_nodeset':
            return self.view.mutnodeset([x, y]) if n % 2 else self.view.immnodeset([x, y])
        if kind == 'h_graph':
            return self.view.nodegraph([(x, y)])
        if kind == 'h_kind':
            return self.hpy.Type(type(x))
        if kind == 'h_inst':
            o = pick(isclass, aclass)()
            setattr(o, TAGNAME, self.tag)
            o.a0 = x
            return o
        if kind == 'h_slot':
            c = aclass(__slots__=(TAGNAME, 's0'))
            self.hv.register__hiding_tag__type(c)
            self.he.append(c)
            if n % 3 == 0:
                c = type(self.name('X'), (c,), {})
            o = c()
            setattr(o, TAGNAME, self.tag if n % 4 else [])
            o.s0 = x
            if n % 3 == 0:
                o.a0 = y
            return o
        if kind == 'h_exact':
            c = aclass()
            self.hv.register_hidden_exact_type(c)
            self.hexact.append(c)
            if n % 4 == 0:
                c = type(self.name('X'), (c,), {})
            o = c()
            o.a0 = x
            return o
        if kind == 'h_slotdict':
            c = aclass(__slots__=('s0', '__dict__'))
            o = c()
            o.s0 = x
            setattr(o, TAGNAME, self.tag)
            return o
        raise AssertionError(kind)

    def attach(self, p, o, k):
        t = type(p)
        if p is self.glob:
            return self.R.append(o)
        if isinstance(p, list):
            p.append(o)
        elif isinstance(p, dict):
            p['k%d' % (k % 5)] = o
        elif t is set:
            try:
                p.add(o)
            except TypeError:
                self.R.append(o)
        elif t is CELL:
            p.cell_contents = o
        elif isinstance(p, self.NS) and not p.is_immutable:
            p.add(o)
        elif isinstance(p, self.NG):
            p.add_edge(p, o)
        elif isinstance(p, type) and t is type or t.__name__[0] == 'X' or t in (
                types.FunctionType, types.ModuleType, types.SimpleNamespace, ValueError):
            try:
                setattr(p, 'a%d' % (k % 3), o)
            except AttributeError:
                try:
                    setattr(p, 's%d' % (k % 2), o)
                except AttributeError:
                    self.R.append(o)
        else:
            self.R.append(o)

    def detach(self, p, k):
        t = type(p)
        if isinstance(p, list):
            if p:
                p.pop(k % len(p))
        elif p is self.glob:
            pass
        elif isinstance(p, dict):
            ks = [q for q in p if q != TAGNAME]
            if ks:
                q = ks[k % len(ks)]
                ks = None
                del p[q]
        elif t is set:
            if p:
                o = list(p)[k % len(p)]
                p.discard(o)
        elif t is CELL:
            try:
                del p.cell_contents
            except ValueError:
                pass
        elif isinstance(p, self.NS) and not p.is_immutable:
            if p:
                p.discard(list(p)[k % len(p)])
        elif isinstance(p, self.NG):
            p.clear()
        else:
            for n in ('a%d' % (k % 3), 'a0', 'a1', 's0', 's1'):
                try:
                    delattr(p, n)
                    break
                except (AttributeError, TypeError):
                    pass

    def do(self, op):
        """run a mutation; returns False if the operation is not one"""
        name = op[0]
        if name == 'new':
            _, kind, p, a, b, k = op
            ns = self.nodes()
            x, y = ns[a % len(ns)], ns[b % len(ns)]
            if kind.startswith('h_') and kind in ('h_idset',):
                pass
            o = self.new(kind, x, y, k, ns)
            self.attach(ns[p % len(ns)], o, k)
        elif name == 'link':
            ns = self.nodes()
            self.attach(ns[op[1] % len(ns)], ns[op[2] % len(ns)], op[3])
        elif name == 'unlink':
            ns = self.nodes()
            p = ns[op[1] % len(ns)]
            ns = None
            self.detach(p, op[2])
        elif name == 'clear':
            ns = self.nodes()
            p = ns[op[1] % len(ns)]
            ns = None
            if isinstance(p, list) or type(p) is set:
                p.clear()
            elif isinstance(p, dict) and p is not self.glob:
                p.clear()
        elif name == 'setclass':
            ns = self.nodes()
            cs = [o for o in ns if isinstance(o, type) and o.__dictoffset__ and not issubclass(o, (list, dict))]
            is_ = [o for o in ns if type(o) in cs]
            if is_ and cs:
                try:
                    is_[op[1] % len(is_)].__class__ = cs[op[2] % len(cs)]
                except TypeError:
                    pass
            cs = is_ = None
        elif name == 'rebase':
            ns = self.nodes()
            cs = [o for o in ns if isinstance(o, type) and o.__dictoffset__]
            if cs:
                c, b = cs[op[1] % len(cs)], cs[op[2] % len(cs)]
                try:
                    if op[3] % 2:
                        c.__bases__ = (b,)
                    else:
                        c.__bases__ = (type(self.name('X'), (), {}),)
                except TypeError:
                    pass
                c = b = None
            cs = None
        elif name == 'setdict':
            ns = self.nodes()
            is_ = [o for o in ns if type(o).__name__[0] == 'X' and type(o).__dictoffset__ and not isinstance(o, type)]
            ds = [o for o in ns if type(o) is dict and o is not self.glob]
            if is_ and ds:
                is_[op[1] % len(is_)].__dict__ = ds[op[2] % len(ds)]
            is_ = ds = None
        elif name == 'step':
            ns = self.nodes()
            gs = [o for o in ns if type(o) is types.GeneratorType]
            if gs:
                next(gs[op[1] % len(gs)], None)
            gs = None
        elif name == 'gc':
            gc.collect()
            self.ctx.fault('gc')
        elif name == 'churn':
            # classes that come, are looked at, and go: their addresses are used again
            for i in range(op[1] % 6 + 1):
                c = type(self.name('X'), (), {'__slots__': ('s0',)} if (op[2] >> i) & 1 else {})
                o = c()
                if (op[2] >> i) & 1:
                    o.s0 = self.R
                self.R.append(o)
                c = o = None
            self.hv.heap()
            del self.R[-(op[1] % 6 + 1):]
            gc.collect()
            self.ctx.fault('gc')
        elif name == 'hchurn':
            # classes whose instances are hidden go; ordinary ones come, maybe at their addresses
            for i in range(op[1] % 3 + 1):
                t = op[2] >> i & 1
                c = type(self.name('X'), (), {'__slots__': (TAGNAME,)} if t else {})
                (self.hv.register__hiding_tag__type if t else self.hv.register_hidden_exact_type)(c)
                o = c()
                if t:
                    setattr(o, TAGNAME, self.tag)
                self.R.append(o)
                c = o = None
            if op[2] & 8:
                self.hv.heap()
            del self.R[-(op[1] % 3 + 1):]
            gc.collect()
            for i in range(op[1] % 3 + 1 + (op[2] & 1)):
                self.R.append(type(self.name('X'), (), {'__slots__': (TAGNAME,)} if op[2] >> i & 16 else {})())
            self.ctx.fault('gc')
        else:
            return False
        return True


WEIGHTS = dict(new=10, link=4, unlink=3, clear=1, setclass=1, rebase=1, setdict=1, step=1, gc=1, churn=1, hchurn=1)


def genops(rng, n, kinds, weights=None, hidden=True):
    """random world mutations"""
    weights = weights or WEIGHTS
    names = list(weights)
    ws = [weights[k] for k in names]

    def r():
        # small numbers select objects near the root
        return rng.choice([0, rng.randrange(4), rng.randrange(12), rng.randrange(60), rng.randrange(1000)])
    for _ in range(n):
        k = rng.choices(names, ws)[0]
        if k == 'new':
            kind = rng.choice(HKINDS) if hidden and rng.random() < .15 else rng.choice(kinds)
            yield [k, kind, r(), r(), r(), rng.randrange(64)]
        elif k in ('link', 'rebase'):
            yield [k, r(), r(), rng.randrange(64)]
        elif k in ('gc',):
            yield [k]
        elif k in ('churn', 'hchurn'):
            yield [k, rng.randrange(6), rng.randrange(64)]
        elif k in ('clear', 'step'):
            yield [k, r()]
        else:
            yield [k, r(), rng.randrange(64)]


def swarm(rng, base=None):
    """weights of mutations and kinds of objects for one run"""
    base = base or WEIGHTS
    w = {k: rng.choice([0, v, v, 2 * v]) for k, v in base.items()}
    w['new'] = max(w['new'], 5)
    kinds = [k for k in KINDS if rng.random() < .6] or ['list']
    if rng.random() < .2:
        kinds = rng.sample(KINDS, 4)
    return w, kinds
