"""C01: node sets against a reference model with exact lifetimes.

World: logical objects (numbered, never reused), a pool of strong
references, named slots holding node sets, iterators.  The model knows who
refers to whom; after every operation the real contents, the exact reference
count of every live object and the liveness of every object ever created are
compared with it.  Faults: failing allocations, raising iterables, iterables
and destructors that use the sets in the middle of an operation, cyclic
garbage collections.
"""
import gc, sys, weakref
import simrt
from simctx import Violation, HarnessError, need

NSLOT = 5


def setup():
    global S, SubMut, SubImm, BASE
    from guppy import sets
    S = sets
    gc.collect()
    gc.disable()

    class SubMut(sets.MutNodeSet):
        pass

    class SubImm(sets.ImmNodeSet):
        pass
    BASE = measure([O(-1, None)]) - 1


class O:
    __slots__ = ('n', 'w', 'ref', '__weakref__')

    def __init__(self, n, w):
        self.n = n
        self.w = w
        self.ref = None

    def __del__(self):
        w = self.w
        if w is not None:
            w.on_del(self)


def measure(pool):
    for o in pool:
        return simrt.refcnt(o)


class MS:
    """model of one node set object"""
    __slots__ = ('kind', 'ids', 'tag', 'k')

    def __init__(self, kind, ids, tag, k):
        self.kind = kind      # 'mut' | 'imm'
        self.ids = set(ids)
        self.tag = tag
        self.k = k


class Boom(Exception):
    pass


class World:
    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.cfg = cfg
        self.n = 0
        self.wr = {}           # id -> weakref
        self.pool = {}         # id -> object (roots)
        self.objref = {}       # id -> MS the object refers to
        self.script = {}       # id -> actions to run when it is destroyed
        self.slot = [None] * NSLOT
        self.mslot = [None] * NSLOT
        self.iters = [None] * 3   # [iterator, MS, ever, always, yielded, done]
        self.touched = None
        self.nested_err = []
        self.filler = []
        self.quiet = False
        self.in_gc = False
        self.nk = 0
        self.fired = 0

    # -- real side ----------------------------------------------------
    def new(self, script, ref):
        i = self.n
        self.n += 1
        o = O(i, self)
        self.wr[i] = weakref.ref(o)
        self.pool[i] = o
        if script:
            self.script[i] = script
        if ref is not None and self.slot[ref] is not None:
            o.ref = self.slot[ref]
            self.objref[i] = self.mslot[ref]
        if self.cfg['spacing']:
            self.filler.append(bytes(self.cfg['spacing']))

    def put(self, s, x, m):
        # the model first: replacing a set may run destructors
        self.mslot[s] = m
        self.slot[s] = x

    def on_del(self, o):
        sc = self.script.pop(o.n, None)
        if sc is None or self.quiet:
            return
        sus = simrt.suspend(True)
        try:
            self.ctx.fault('destructor_reentry')
            self.nested(sc, o)
        except BaseException as e:
            self.nested_err.append('%s: %s' % (type(e).__name__, e))
        finally:
            simrt.suspend(sus)

    def touch(self, m, i):
        if self.touched is not None:
            self.touched.append((m, i))

    def nested(self, script, me=None):
        """micro operations performed in the middle of another operation"""
        for a in script:
            k, s = a[0], a[1]
            x = self.slot[s]
            if x is None:
                continue
            m = self.mslot[s]
            mut = m.kind == 'mut'
            self.ctx.log('nested', k, s)
            if k == 'clear' and mut:
                self.touched.extend((m, i) for i in list(self.everything()))
                m.ids = set()
                x.clear()
            elif k == 'add' and mut and a[2] in self.pool:
                self.touch(m, a[2])
                m.ids.add(a[2])
                x.add(self.pool[a[2]])
            elif k == 'discard' and mut and a[2] in self.pool:
                self.touch(m, a[2])
                m.ids.discard(a[2])
                x.discard(self.pool[a[2]])
            elif k == 'pop' and mut and len(x):
                try:
                    o = x.pop()
                except ValueError:
                    continue
                self.touch(m, o.n)
                m.ids.discard(o.n)
                need(type(o) is O, 'dead-object-exposed', 'pop gave %r' % type(o))
                del o
            elif k == 'len':
                need(0 <= len(x) <= self.n, 'bad-length', str(len(x)))
            elif k == 'iter':
                c = 0
                for o in x:
                    need(type(o) is O, 'dead-object-exposed', 'iteration gave %r' % (type(o),))
                    c += 1
                    if c > self.n:
                        raise Violation('dead-object-exposed', 'iteration does not end')
                o = None
            elif k == 'resurrect' and me is not None and not self.in_gc and mut:
                self.touch(m, me.n)
                m.ids.add(me.n)
                x.add(me)
            elif k == 'dropslot':
                x = None
                self.put(s, None, None)
            elif k == 'copy':
                c = S.immnodeset(x)
                for o in c:
                    need(type(o) is O, 'dead-object-exposed', 'copy has %r' % (type(o),))
                o = c = None
            x = None

    def everything(self):
        return self.wr.keys()

    # -- model side ---------------------------------------------------
    def model_sets(self):
        """every model set that may be alive: from slots, iterators, objects"""
        seen = {}
        for m in self.mslot:
            if m is not None:
                seen[m.k] = m
        for it in self.iters:
            if it is not None and it[1] is not None:
                seen[it[1].k] = it[1]
        for i in self.wr:
            m = self.objref.get(i)
            if m is not None:
                seen[m.k] = m
        return seen

    def release(self, roots_only=False):
        """which logical objects are alive: reference counting (cycles stay)
        or, after a collection, reachability from the roots."""
        alive = {i for i in self.wr}
        if roots_only:
            alive = set(self.pool)
            sets = {}
            todo = [m for m in self.mslot if m is not None] + \
                   [it[1] for it in self.iters if it is not None and it[1] is not None]
            for i in alive:
                if i in self.objref:
                    todo.append(self.objref[i])
            while todo:
                m = todo.pop()
                if m.k in sets:
                    continue
                sets[m.k] = m
                for i in list(m.ids) + ([m.tag] if m.tag is not None else []):
                    if i not in alive:
                        alive.add(i)
                        if i in self.objref:
                            todo.append(self.objref[i])
            return alive, sets
        while True:
            sets = {}
            for m in self.mslot:
                if m is not None:
                    sets[m.k] = m
            for it in self.iters:
                if it is not None and it[1] is not None:
                    sets[it[1].k] = it[1]
            for i in alive:
                if i in self.objref:
                    m = self.objref[i]
                    sets[m.k] = m
            held = set(self.pool)
            for m in sets.values():
                held |= m.ids
                if m.tag is not None:
                    held.add(m.tag)
            held &= alive
            if held == alive:
                return alive, sets
            alive = held

    # -- comparison ---------------------------------------------------
    def check(self, what, after_gc=False):
        if self.nested_err:
            raise Violation('error-in-nested-use', '%s: %s' % (what, self.nested_err[0]))
        alive, sets = self.release(after_gc)
        for i in list(self.wr):
            o = self.wr[i]()
            if i in alive:
                need(o is not None, 'object-lost', '%s: object %d died while a set holds it' % (what, i))
            else:
                need(o is None, 'object-leaked', '%s: object %d is alive but nothing holds it' % (what, i))
                del self.wr[i]
                self.objref.pop(i, None)
                self.script.pop(i, None)
            o = None
        # contents of the sets held by slots
        seen = set()
        for s in range(NSLOT):
            x, m = self.slot[s], self.mslot[s]
            if x is None or m.k in seen:
                continue
            seen.add(m.k)
            self.check_set(what, x, m)
        # reference counts
        cnt = dict.fromkeys(alive, 0)
        for m in sets.values():
            for i in m.ids:
                if i in cnt:
                    cnt[i] += 1
            if m.tag is not None and m.tag in cnt:
                cnt[m.tag] += 1
        for i in self.pool:
            cnt[i] += 1
        x = None
        for i in alive:
            o = self.wr[i]()
            r = simrt.refcnt(o) - BASE
            need(r == cnt[i], 'reference-count', lambda: '%s: object %d has %d references, expected %d' % (
                what, i, r, cnt[i]))
        for it in self.iters:
            if it is not None and it[1] is not None:
                it[2] |= it[1].ids
                it[3] &= it[1].ids

    def check_set(self, what, x, m):
        n = len(x)
        need(n == len(m.ids), 'contents', lambda: '%s: length %d, expected %d' % (what, n, len(m.ids)))
        need(bool(x) == bool(m.ids), 'contents', 'truth value')
        c = 0
        got = set()
        for o in x:
            c += 1
            need(c <= n, 'contents', '%s: iteration yields more than len() elements' % what)
            need(type(o) is O, 'dead-object-exposed', lambda: '%s: iteration gave a %r' % (what, type(o)))
            got.add(o.n)
        o = None
        need(c == n and got == m.ids, 'contents',
             lambda: '%s: %s set has %s, expected %s' % (what, m.kind, sorted(got), sorted(m.ids)))
        for i in (self.wr if len(self.wr) < 60 else list(self.wr)[::7]):
            o = self.wr[i]()
            if o is not None:
                need((o in x) == (i in m.ids), 'contents', lambda: '%s: membership of %d' % (what, i))
            o = None
        need(x.is_immutable == (m.kind == 'imm'), 'contents', 'is_immutable')
        if m.kind == 'imm' or m.tag is not None:
            tag = getattr(x, '_hiding_tag_', None)
            need((tag.n if tag is not None else None) == m.tag, 'contents', '%s: hiding tag' % what)

    def adopt(self, what, pre, exp, mode, held):
        """After an operation disturbed from inside: read the real contents,
        check every element is explained, make the model equal to them."""
        free = {}
        anyfree = set()
        for m, i in self.touched:
            free.setdefault(m.k, set()).add(i)
            anyfree.add(i)
        for x, m in held + list(zip(self.slot, self.mslot)):
            if x is None or m.kind != 'mut':
                continue
            got = set()
            for o in x:
                need(type(o) is O, 'dead-object-exposed', lambda: '%s: iteration gave a %r' % (what, type(o)))
                need(o.n not in got, 'contents', 'element twice')
                got.add(o.n)
            o = None
            e = exp.get(m.k)
            p = pre.get(m.k, m.ids)
            if e is None:
                e = p
            for i in got ^ e:
                if i in anyfree:
                    continue
                if mode == 'partial' and (i in p) != (i in e):
                    continue
                raise Violation('contents', '%s: element %d %s' % (
                    what, i, 'is present but should not be' if i in got else 'is missing'))
            m.ids = got
            pre.pop(m.k, None)
            exp.pop(m.k, None)
        x = None


# ---------------------------------------------------------------------

def iterable_ids(w, d):
    """ids an iterable description yields (only objects in the pool)"""
    return [i for i in d['ids'] if i in w.pool]


def make_iterable(w, d):
    k = d['k']
    if k == 'slot':
        return w.slot[d['s']]
    if k == 'fresh':
        def fresh():
            # objects that nobody else holds
            for i in d['ids']:
                sus = simrt.suspend(True)
                try:
                    o = O(i, w)
                    w.wr[i] = weakref.ref(o)
                finally:
                    simrt.suspend(sus)
                yield o
                o = None
        return fresh()
    ids = iterable_ids(w, d)
    if k == 'list':
        return [w.pool[i] for i in ids]
    if k == 'tuple':
        return tuple([w.pool[i] for i in ids])
    if k == 'dict':
        return {w.pool[i]: None for i in ids}

    def gen():
        for j, i in enumerate(ids):
            sus = simrt.suspend(True)
            try:
                if d.get('raise') == j:
                    w.ctx.fault('iterable_raises')
                    raise Boom
                if d.get('at') == j:
                    w.ctx.fault('iterable_reentry')
                    w.nested(d['script'])
                o = w.pool.get(i)
            finally:
                simrt.suspend(sus)
            if o is None:
                continue
            yield o
        if d.get('raise') == len(ids):
            raise Boom
    return gen()


def ids_of(w, d):
    """(list of ids in order, raises) as the reference semantics sees it"""
    if d['k'] == 'slot':
        return sorted(w.mslot[d['s']].ids), False
    if d['k'] == 'fresh':
        return list(d['ids']), False
    ids = iterable_ids(w, d)
    if d['k'] == 'dict':
        ids = list(dict.fromkeys(ids))
    if d['k'] == 'gen' and d.get('raise') is not None and d['raise'] <= len(ids):
        return ids[:d['raise']], True
    return ids, False


BIN = {'or': lambda a, b: a | b, 'and': lambda a, b: a & b, 'xor': lambda a, b: a ^ b, 'sub': lambda a, b: a - b}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'le': lambda a, b: a <= b, 'lt': lambda a, b: a < b,
       'ge': lambda a, b: a >= b, 'gt': lambda a, b: a > b}
import operator as op_
IOPS = {'or': op_.ior, 'and': op_.iand, 'xor': op_.ixor, 'sub': op_.isub}
BOPS = {'or': op_.or_, 'and': op_.and_, 'xor': op_.xor, 'sub': op_.sub}
COPS = {'eq': op_.eq, 'ne': op_.ne, 'le': op_.le, 'lt': op_.lt, 'ge': op_.ge, 'gt': op_.gt}


def avail(w, d):
    return d['k'] != 'slot' or w.slot[d['s']] is not None


def iapply(name, cur, ids):
    cur = set(cur)
    if name == 'or':
        cur |= set(ids)
    elif name == 'sub':
        cur -= set(ids)
    elif name == 'and':
        cur &= set(ids)
    else:
        for i in ids:
            cur ^= {i}
    return cur


def do(w, op):
    """One operation: real effect, model effect, checks."""
    name = op[0]
    ctx = w.ctx
    what = name
    fail = op[-1] if isinstance(op[-1], dict) and 'fail' in op[-1] else None
    at, burst = fail['fail'] if fail else (0, 0)
    w.touched = []
    w.fired = 0
    pre = {k: set(m.ids) for k, m in w.model_sets().items()}
    exp = {}
    mode = 'exact'
    held = list(zip(w.slot, w.mslot)) if w.cfg['style'] == 'reent' and name in ('ctor', 'iop', 'bop', 'loop', 'clear') else []

    def call(f, *args):
        try:
            return True, simrt.call(f, args, None, at, burst, 0)
        except BaseException as e:
            e.__traceback__ = None
            return False, e
        finally:
            w.fired = simrt.last()[1]
            ctx.fault('alloc_failure', w.fired)

    def failed(e, *also):
        """classify an exception; returns True if it is an excused failure"""
        if w.fired and isinstance(e, MemoryError):
            return True
        if also and isinstance(e, also):
            return True
        raise Violation('wrong-exception', '%s raised %s: %s' % (what, type(e).__name__, e))

    if name == 'new':
        w.new(op[1], op[2])
    elif name == 'drop':
        w.pool.pop(op[1], None)
    elif name == 'dropslot':
        w.mslot[op[1]] = None
        w.slot[op[1]] = None
    elif name == 'alias':
        w.put(op[2], w.slot[op[1]], w.mslot[op[1]])
    elif name == 'setref':
        o = w.pool.get(op[1])
        if o is not None:
            x = w.slot[op[2]]
            if x is not None:
                w.objref[op[1]] = w.mslot[op[2]]
                o.ref = x
            else:
                w.objref.pop(op[1], None)
                o.ref = None
            x = None
        o = None
    elif name == 'gc':
        w.in_gc = True
        gc.collect()
        w.in_gc = False
        ctx.fault('gc')
    elif name == 'ctor':
        _, kind, sub, d, tag, dst = op[:6]
        if d is None or avail(w, d):
            what = 'ctor %s' % kind
            cls = {'mut': (S.MutNodeSet, SubMut), 'imm': (S.ImmNodeSet, SubImm)}[kind][sub]
            args = ()
            ids, boom = [], False
            same = None
            if d is not None:
                if d['k'] == 'fresh':
                    d = dict(d, ids=list(range(w.n, w.n + d['n'])))
                    w.n += d['n']
                args = (make_iterable(w, d),)
                ids, boom = ids_of(w, d)
            if tag is not None and kind == 'imm' and d is not None and tag in w.pool:
                args += (w.pool[tag],)
            else:
                tag = None
            okd, r = call(cls, *args)
            args = None
            if okd:
                need(not boom, 'error-swallowed', 'ctor ignored an exception of the iterable')
                m = None
                for s in range(NSLOT):
                    if w.slot[s] is r:
                        m = w.mslot[s]
                if m is None:
                    w.nk += 1
                    m = MS(kind, ids, tag, w.nk)
                    if w.touched:
                        m.ids = read_ids(r)
                        bad = (m.ids ^ set(ids)) - {i for _, i in w.touched}
                        need(not bad, 'contents', lambda: 'ctor: elements %s not explained' % sorted(bad))
                else:
                    need(d is not None and d['k'] == 'slot' and kind == 'imm' and m.kind == 'imm' and
                         m.tag == tag, 'wrong-alias', 'constructor returned an existing set')
                w.put(dst, r, m)
            else:
                failed(r, *([Boom] if boom else []))
            r = None
    elif name in ('add', 'append', 'discard', 'remove', 'tas', 'tac'):
        _, s, i = op[:3]
        x = w.slot[s]
        if x is not None and i in w.pool:
            m = w.mslot[s]
            if m.kind == 'imm':
                need(not hasattr(x, name), 'contents', 'immutable set has ' + name)
            else:
                was = i in m.ids
                okd, r = call(getattr(x, name), w.pool[i])
                if okd:
                    if name == 'append':
                        need(not was, 'wrong-result', 'append of a member succeeded')
                    if name == 'remove':
                        need(was, 'wrong-result', 'remove of a non-member succeeded')
                    if name in ('tas', 'tac'):
                        need(r is was, 'wrong-result', '%s returned %r' % (name, r))
                    e = set(m.ids)
                    (e.add if name in ('add', 'append', 'tas') else e.discard)(i)
                    exp[m.k] = e
                else:
                    if not (w.fired and isinstance(r, MemoryError)):
                        need(isinstance(r, ValueError) and (name == 'append' and was or name == 'remove' and not was),
                             'wrong-exception', '%s: %r' % (name, r))
                r = None
        x = None
    elif name == 'pop':
        x = w.slot[op[1]]
        if x is not None and w.mslot[op[1]].kind == 'mut':
            m = w.mslot[op[1]]
            okd, r = call(x.pop)
            if okd:
                need(m.ids, 'wrong-result', 'pop of an empty set returned')
                need(type(r) is O, 'dead-object-exposed', 'pop gave %r' % (type(r),))
                need(r.n in m.ids, 'wrong-result', 'pop returned a non-member')
                exp[m.k] = m.ids - {r.n}
            elif not (w.fired and isinstance(r, MemoryError)):
                need(isinstance(r, ValueError) and not m.ids, 'wrong-exception', 'pop: %r' % (r,))
            r = None
        x = None
    elif name == 'clear':
        x = w.slot[op[1]]
        if x is not None and w.mslot[op[1]].kind == 'mut':
            m = w.mslot[op[1]]
            okd, r = call(x.clear)
            exp[m.k] = set()
            if not okd:
                failed(r)
                mode = 'partial'
            r = None
        x = None
    elif name == 'iop':
        _, o, s, d = op[:4]
        x = w.slot[s]
        if x is not None and avail(w, d):
            what = 'iop %s' % o
            m = w.mslot[s]
            if d['k'] == 'fresh':
                d = dict(d, ids=list(range(w.n, w.n + d['n'])))
                w.n += d['n']
            ids, boom = ids_of(w, d)
            y = make_iterable(w, d)
            mism = d['k'] == 'slot' and w.mslot[d['s']].tag != m.tag
            okd, r = call(IOPS[o], x, y)
            y = None
            if m.kind == 'mut':
                if o == 'and' and boom:
                    pass
                else:
                    exp[m.k] = iapply(o, m.ids, ids)
                if okd:
                    need(not boom, 'error-swallowed', 'iop ignored an exception of the iterable')
                    need(r is x, 'wrong-result', 'in-place operation returned another object')
                else:
                    failed(r, *([Boom] if boom else []))
                    if isinstance(r, MemoryError):
                        mode = 'partial'
            else:
                if okd:
                    need(not boom, 'error-swallowed', 'iop ignored an exception of the iterable')
                    w.nk += 1
                    n = MS('imm', iapply_set(o, m.ids, ids), m.tag, w.nk)
                    n.ids = accept_ids(w, r, n.ids, what)
                    w.put(s, r, n)
                else:
                    failed(r, *([Boom] if boom else []), *([ValueError] if mism else []))
            r = None
        x = None
    elif name == 'bop':
        _, o, s, d, dst = op[:5]
        x = w.slot[s]
        if x is not None and avail(w, d):
            what = 'bop %s' % o
            m = w.mslot[s]
            if d['k'] == 'fresh':
                d = dict(d, ids=list(range(w.n, w.n + d['n'])))
                w.n += d['n']
            ids, boom = ids_of(w, d)
            y = make_iterable(w, d)
            mism = d['k'] == 'slot' and w.mslot[d['s']].tag != m.tag
            okd, r = call(BOPS[o], x, y)
            y = None
            if okd:
                need(not boom, 'error-swallowed', 'operator ignored an exception of the iterable')
                need(isinstance(r, S.ImmNodeSet), 'wrong-result', 'operator did not return an immutable set')
                w.nk += 1
                n = MS('imm', iapply_set(o, m.ids, ids), m.tag, w.nk)
                n.ids = accept_ids(w, r, n.ids, what)
                w.put(dst, r, n)
            else:
                failed(r, *([Boom] if boom else []), *([ValueError] if mism else []))
            r = None
        x = None
    elif name == 'cmp':
        _, o, s, t = op[:4]
        x, y = w.slot[s], w.slot[t]
        if x is not None and y is not None:
            okd, r = call(COPS[o], x, y)
            if okd:
                e = CMP[o](w.mslot[s].ids, w.mslot[t].ids)
                need(r is e, 'wrong-result', lambda: 'comparison %s of %s and %s gave %r' % (
                    o, sorted(w.mslot[s].ids), sorted(w.mslot[t].ids), r))
            else:
                failed(r)
            r = None
        x = y = None
    elif name == 'hash':
        x, y = w.slot[op[1]], w.slot[op[2]]
        if x is not None and y is not None:
            ma, mb = w.mslot[op[1]], w.mslot[op[2]]
            if ma.kind == mb.kind == 'imm' and ma.ids == mb.ids:
                need(hash(x) == hash(y), 'wrong-result', 'equal sets, different hashes')
        x = y = None
    elif name == 'obj_at':
        x = w.slot[op[1]]
        if x is not None and w.mslot[op[1]].kind == 'imm':
            m = w.mslot[op[1]]
            for i in op[2]:
                if i in w.pool:
                    okd, r = call(x.obj_at, id(w.pool[i]))
                    if okd:
                        need(i in m.ids and r is w.pool[i], 'wrong-result', 'obj_at')
                    elif not (w.fired and isinstance(r, MemoryError)):
                        need(isinstance(r, ValueError) and i not in m.ids, 'wrong-exception', 'obj_at: %r' % (r,))
                    r = None
        x = None
    elif name == 'union':
        _, ss, kind, dst = op[:4]
        xs = [w.slot[s] for s in ss if w.slot[s] is not None]
        e = set()
        for s in ss:
            if w.mslot[s] is not None:
                e |= w.mslot[s].ids
        r = (S.mutnodeset_union if kind == 'mut' else S.immnodeset_union)(xs)
        xs = None
        w.nk += 1
        w.put(dst, r, MS(kind, e, None, w.nk))
        r = None
    elif name == 'tag':
        x = w.slot[op[1]]
        if x is not None and w.mslot[op[1]].kind == 'mut' and op[2] in w.pool:
            x._hiding_tag_ = w.pool[op[2]]
            w.mslot[op[1]].tag = op[2]
        x = None
    elif name == 'iter':
        x = w.slot[op[1]]
        w.iters[op[2]] = None
        if x is not None:
            m = w.mslot[op[1]]
            okd, r = call(iter, x)
            if okd:
                w.iters[op[2]] = [r, m, set(m.ids), set(m.ids), set(), False]
            else:
                failed(r)
            r = None
        x = None
    elif name == 'next':
        it = w.iters[op[1]]
        if it is not None and not it[5]:
            for _ in range(op[2]):
                okd, r = call(next, it[0])
                if not okd:
                    if w.fired and isinstance(r, MemoryError):
                        # what the iterator does after a failure is not specified: retire it
                        w.iters[op[1]] = None
                        break
                    need(isinstance(r, StopIteration), 'wrong-exception', 'next: %r' % (r,))
                    miss = it[3] - it[4]
                    need(not miss, 'iteration', lambda: 'iteration missed %s' % sorted(miss))
                    it[5] = True
                    if it[1].kind == 'imm':
                        it[1] = None
                    break
                need(type(r) is O, 'dead-object-exposed', 'iteration gave %r' % (type(r),))
                need(r.n in it[2] and w.wr.get(r.n) is not None, 'iteration', 'yielded an object that never was a member')
                need(r.n not in it[4], 'iteration', 'yielded twice')
                it[4].add(r.n)
                if op[3]:
                    w.pool[r.n] = r
                r = None
            r = None
        it = None
    elif name == 'dropiter':
        w.iters[op[1]] = None
    elif name == 'loop':
        # iterate while changing the set being iterated
        _, s, k, script = op[:4]
        x = w.slot[s]
        if x is not None:
            m = w.mslot[s]
            start = set(m.ids)
            got = set()
            c = 0
            for o in x:
                need(type(o) is O, 'dead-object-exposed', 'iteration gave %r' % (type(o),))
                need(o.n not in got, 'iteration', 'yielded twice')
                need(o.n in start or any(t == o.n for _, t in w.touched), 'iteration', 'yielded a stranger')
                got.add(o.n)
                if c == k:
                    ctx.fault('mutation_during_iteration')
                    w.nested(script)
                c += 1
                need(c <= 3 * w.n + 10, 'iteration', 'iteration does not end')
            o = None
            miss = start - got - {t for _, t in w.touched}
            need(not miss, 'iteration', lambda: 'iteration missed %s' % sorted(miss))
        x = None
    else:
        raise HarnessError('unknown op %r' % (name,))

    if w.touched or mode == 'partial':
        w.adopt(what, pre, exp, 'partial' if mode == 'partial' else 'exact', held)
    else:
        sets = w.model_sets()
        for k, e in exp.items():
            if k in sets:
                sets[k].ids = set(e)
    while held:
        # sets kept to the end of the operation go now; their elements may run scripts
        w.touched = []
        x = m = None
        held.pop()
        if w.touched:
            w.adopt(what, {}, {}, 'exact', held)
    w.touched = []          # actions of objects dying in check() are ordinary
    w.check(what, name == 'gc')
    ctx.step()
    ctx.log(name, sorted((m.k, m.kind, tuple(sorted(m.ids))) for m in w.model_sets().values()), len(w.wr))
    ctx.state(name, tuple(None if m is None else (m.kind, min(len(m.ids), 6), m.tag is not None)
                          for m in w.mslot)[:3], bool(w.fired))


def read_ids(r):
    got = set()
    for o in r:
        need(type(o) is O, 'dead-object-exposed', 'set contains a %r' % (type(o),))
        got.add(o.n)
    return got


def accept_ids(w, r, want, what):
    if not w.touched:
        return want
    got = read_ids(r)
    bad = (got ^ want) - {i for _, i in w.touched}
    need(not bad, 'contents', lambda: '%s: elements %s not explained' % (what, sorted(bad)))
    return got


def iapply_set(o, a, ids):
    return BIN[o](set(a), set(ids))


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = World(ctx, cfg)
    errs = []
    sys.unraisablehook = lambda a: errs.append(repr(a.exc_value))
    scripts = cfg.get('scripts', {})
    for i in range(cfg['n0']):
        w.new(scripts.get(str(i)), None)
    for op in plan['ops']:
        do(w, op)
        if errs:
            raise Violation('unraisable', '%s: %s' % (op[0], errs[0]))
    # the end: drop everything, nothing may survive
    w.quiet = True
    for i in range(3):
        w.iters[i] = None
    for s in range(NSLOT):
        w.slot[s] = None
        w.mslot[s] = None
    w.pool.clear()
    gc.collect()
    for i, r in w.wr.items():
        need(r() is None, 'object-leaked', 'object %d is alive at the end' % i)
    simrt.check()


# ---------------------------------------------------------------------

def gen(rng, tier):
    style = rng.choice(['plain', 'alloc', 'alloc', 'reent', 'reent', 'iter'])
    big = rng.random() < 0.08
    n0 = rng.choice([3, 5, 8, 12, 30]) if not big else rng.choice([120, 560, 700])
    cfg = dict(style=style, mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), n0=n0,
               spacing=rng.choice([0, 0, 200, 480]) if not big else 480)
    nops = rng.choice([5, 12, 25, 40]) if not big else rng.choice([6, 15])
    top = [n0]
    w = {}
    names = ['new', 'drop', 'dropslot', 'alias', 'gc', 'ctor', 'add', 'append', 'discard', 'remove', 'tas', 'tac', 'pop',
             'clear', 'iop', 'bop', 'cmp', 'hash', 'obj_at', 'union', 'tag', 'iter', 'next', 'dropiter', 'setref', 'loop']
    for n in names:
        w[n] = rng.choice([0, 1, 2, 4])
    for n, b in (('ctor', 3), ('iop', 5), ('drop', 4), ('bop', 3), ('add', 3)):
        w[n] += b
    w['gc'] = min(w['gc'], 1)
    w['tag'] = min(w['tag'], 1)
    if style == 'reent':
        w['new'] += 4
        w['clear'] += 2
        w['loop'] += 2
    else:
        w['loop'] = 0
    if style == 'iter':
        w['iter'] += 5
        w['next'] += 8
        w['drop'] += 4
        w['discard'] += 3
    names = [n for n in names if w[n]]
    weights = [w[n] for n in names]

    def slot():
        return rng.randrange(NSLOT) if rng.random() < .4 else rng.randrange(2)

    def oid():
        return rng.randrange(max(0, top[0] - 25), top[0]) if rng.random() < .5 and top[0] > 25 else rng.randrange(top[0])

    def script():
        r = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(['clear', 'add', 'add', 'discard', 'discard', 'pop', 'len', 'iter', 'resurrect', 'dropslot', 'copy'])
            a = [k, slot()]
            if k in ('add', 'discard'):
                a.append(oid())
            r.append(a)
        return r

    def ids():
        if big and rng.random() < .7:
            a = rng.randrange(top[0])
            b = rng.randrange(a, top[0] + 1)
            return list(range(a, b, rng.choice([1, 1, 2, 3])))
        return [oid() for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]

    def iterable():
        k = rng.choice(['slot', 'slot', 'slot', 'list', 'tuple', 'dict'] + (['gen'] * 4 if style == 'reent' else
                       ['gen', 'fresh'] if style in ('plain', 'iter') else []))
        if k == 'slot':
            return dict(k=k, s=slot())
        if k == 'fresh':
            return dict(k=k, n=rng.choice([1, 2, 3, 5]))
        d = dict(k=k, ids=ids())
        if k == 'gen':
            if rng.random() < .4:
                d['raise'] = rng.randrange(len(d['ids']) + 1)
            if style == 'reent' and rng.random() < .7 and d['ids']:
                d['at'] = rng.randrange(len(d['ids']))
                d['script'] = script()
        return d
    ops = []
    if style == 'reent':
        cfg['scripts'] = {str(i): script() for i in range(min(n0, 40)) if rng.random() < .5}
    if style in ('reent', 'iter') or rng.random() < .5:
        # sets that are the only owners of their elements
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append(['ctor', rng.choice(['mut', 'mut', 'imm']), 0, dict(k='list', ids=ids()), None, slot()])
        keep = rng.choice([0, .3, .7])
        for i in range(n0):
            if rng.random() > keep:
                ops.append(['drop', i])
    for _ in range(nops):
        n = rng.choices(names, weights)[0]
        if n == 'new':
            op = [n, script() if style == 'reent' and rng.random() < .7 else None,
                  slot() if rng.random() < .3 else None]
            top[0] += 1
        elif n == 'drop':
            op = [n, oid()]
        elif n in ('dropslot',):
            op = [n, slot()]
        elif n == 'alias':
            op = [n, slot(), slot()]
        elif n == 'gc':
            op = [n]
        elif n == 'ctor':
            op = [n, rng.choice(['mut', 'mut', 'imm']), int(rng.random() < .2), iterable() if rng.random() < .8 else None,
                  oid() if rng.random() < .1 else None, slot()]
        elif n in ('add', 'append', 'discard', 'remove', 'tas', 'tac'):
            op = [n, slot(), oid()]
        elif n in ('pop', 'clear'):
            op = [n, slot()]
        elif n == 'iop':
            op = [n, rng.choice(list(IOPS)), slot(), iterable()]
        elif n == 'bop':
            op = [n, rng.choice(list(IOPS)), slot(), iterable(), slot()]
        elif n == 'cmp':
            op = [n, rng.choice(list(CMP)), slot(), slot()]
        elif n == 'hash':
            op = [n, slot(), slot()]
        elif n == 'obj_at':
            op = [n, slot(), [oid() for _ in range(4)]]
        elif n == 'union':
            op = [n, [slot() for _ in range(rng.randrange(4))], rng.choice(['mut', 'imm']), slot()]
        elif n == 'tag':
            op = [n, slot(), oid()]
        elif n == 'iter':
            op = [n, slot(), rng.randrange(3)]
        elif n == 'next':
            op = [n, rng.randrange(3), rng.choice([1, 1, 2, 5, 99]), int(rng.random() < .2)]
        elif n == 'dropiter':
            op = [n, rng.randrange(3)]
        elif n == 'setref':
            op = [n, oid(), slot()]
        elif n == 'loop':
            op = [n, slot(), rng.randrange(4), script()]
        if style == 'alloc' and n not in ('new', 'drop', 'dropslot', 'alias', 'gc', 'union', 'tag', 'loop', 'setref', 'hash') \
                and rng.random() < .5:
            op.append(dict(fail=[rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 14, 20] + ([40, 80, 200, 500] if big else [])),
                                 rng.choice([1, 1, 1, 2, 50])]))
        ops.append(op)
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    c = plan['cfg']
    for n in (1, 2, 3, 5, 8, 30):
        if n < c['n0']:
            yield dict(plan, cfg=dict(c, n0=n))
    if c['spacing']:
        yield dict(plan, cfg=dict(c, spacing=0))
    for k in c.get('scripts', {}):
        yield dict(plan, cfg=dict(c, scripts={a: b for a, b in c['scripts'].items() if a != k}))
    for i, op in enumerate(plan['ops']):
        for j, x in enumerate(op):
            if isinstance(x, dict) and len(x.get('ids', ())) > 1:
                for k in range(len(x['ids'])):
                    y = dict(x, ids=x['ids'][:k] + x['ids'][k + 1:])
                    yield dict(plan, ops=plan['ops'][:i] + [op[:j] + [y] + op[j + 1:]] + plan['ops'][i + 1:])
