"""C02: bit sets against a reference model of exact integer sets.

World: named slots holding bit sets of every kind (mutable, immutable,
complemented, subclasses), snapshots taken by iterators.  Faults: failing
allocations, raising iterables, iterables that use the set in the middle of
an operation.  Histories make sets share storage in every way they can
(copies, immutable versions, slices) and then change either side.
"""
import gc, sys, copy, pickle
import operator as op_
import simrt
from simctx import Violation, HarnessError, need

NSLOT = 6
W = 64


def setup():
    global S, SubMut, SubImm, SubCpl, CplBitSet
    from guppy import sets
    S = sets
    from guppy.sets.setsc import CplBitSet
    gc.collect()
    gc.disable()

    class SubMut(sets.MutBitSet):
        pass

    class SubImm(sets.ImmBitSet):
        pass

    class SubCpl(CplBitSet):
        pass


class Boom(Exception):
    pass


class M:
    """model: kind mut | imm | cpl (immutable complemented); the set is
    `ids`, or its complement if cpl"""
    __slots__ = ('kind', 'ids', 'cpl', 'k')

    def __init__(self, kind, ids, cpl, k=0):
        self.kind = kind
        self.ids = frozenset(ids)
        self.cpl = bool(cpl)
        self.k = k

    def has(self, i):
        return (i in self.ids) != self.cpl


def set_op(o, a, ac, b, bc):
    """(ids, cpl) of  a op b"""
    if o == 'sub':
        return set_op('and', a, ac, b, not bc)
    if o == 'xor':
        return a ^ b, ac != bc
    if o == 'or':
        r, c = set_op('and', a, not ac, b, not bc)
        return r, not c
    if ac and bc:
        return a | b, True
    if ac:
        return b - a, False
    if bc:
        return a - b, False
    return a & b, False


def leq(a, b):
    if not a.cpl and not b.cpl:
        return a.ids <= b.ids
    if not a.cpl and b.cpl:
        return not (a.ids & b.ids)
    if a.cpl and not b.cpl:
        return False
    return b.ids <= a.ids


def eq(a, b):
    return a.cpl == b.cpl and a.ids == b.ids


CMP = {'eq': eq, 'ne': lambda a, b: not eq(a, b), 'le': leq, 'ge': lambda a, b: leq(b, a),
       'lt': lambda a, b: leq(a, b) and not eq(a, b), 'gt': lambda a, b: leq(b, a) and not eq(a, b)}
COPS = {'eq': op_.eq, 'ne': op_.ne, 'le': op_.le, 'lt': op_.lt, 'ge': op_.ge, 'gt': op_.gt}
IOPS = {'or': op_.ior, 'and': op_.iand, 'xor': op_.ixor, 'sub': op_.isub}
BOPS = {'or': op_.or_, 'and': op_.and_, 'xor': op_.xor, 'sub': op_.sub}


def int_ids(n):
    """the bits of an integer: (ids, cpl)"""
    c = n < 0
    if c:
        n = ~n
    ids = set()
    i = 0
    while n:
        if n & 1:
            ids.add(i)
        n >>= 1
        i += 1
    return frozenset(ids), c


class World:
    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.cfg = cfg
        self.slot = [None] * NSLOT
        self.m = [None] * NSLOT
        self.it = [None] * 3       # [iterator, remaining list]
        self.nk = 0
        self.touched = None
        self.fired = 0
        self.opno = 0

    def put(self, s, x, m):
        for i in range(NSLOT):
            if self.slot[i] is x:
                m = self.m[i]
                break
        else:
            self.nk += 1
            m.k = self.nk
        self.slot[s] = x
        self.m[s] = m

    def operand(self, d):
        """-> (object, ids, cpl, elementwise list or None, raises)"""
        k = d['k']
        if k == 'slot':
            x = self.slot[d['s']]
            if x is None:
                return None
            m = self.m[d['s']]
            return x, m.ids, m.cpl, None, False
        if k == 'int':
            v = 0
            for b in d['bits']:
                v |= 1 << b
            if d['neg']:
                v = ~v
            ids, c = int_ids(v)
            return v, ids, c, None, False
        v = list(d['v'])
        if k == 'list':
            return v, frozenset(v), False, v, False
        if k == 'tuple':
            return tuple(v), frozenset(v), False, v, False
        if k == 'dict':
            v = list(dict.fromkeys(v))
            return dict.fromkeys(v), frozenset(v), False, v, False
        if k == 'bad':       # a list with something that is not a bit in it
            x = list(v)
            n = d['raise'] % (len(v) + 1)
            x.insert(n, {'f': 1.5, 's': 'x', 'big': 1 << 70, 'neg': -(1 << 64)}[d['what']])
            return (x if d['lst'] else iter(x)), None, False, v[:n], True
        n = d.get('raise')

        def gen():
            for j, i in enumerate(v):
                sus = simrt.suspend(True)
                try:
                    if n == j:
                        self.ctx.fault('iterable_raises')
                        raise Boom
                    if d.get('at') == j:
                        self.ctx.fault('iterable_reentry')
                        self.nested(d['script'])
                finally:
                    simrt.suspend(sus)
                yield i
            if n == len(v):
                raise Boom
        if n is not None and n <= len(v):
            return gen(), None, False, v[:n], True
        return gen(), frozenset(v), False, v, False

    def nested(self, script):
        for a in script:
            k, s = a[:2]
            x, m = self.slot[s], self.m[s]
            if x is None or m.kind != 'mut':
                continue
            self.ctx.log('nested', a)
            if k == 'clear':
                self.touched.append((m.k, None))
                x.clear()
                m.ids, m.cpl = frozenset(), False
            elif k == 'add':
                self.touched.append((m.k, a[2]))
                x.add(a[2])
                m.ids = m.ids - {a[2]} if m.cpl else m.ids | {a[2]}
            elif k == 'discard':
                self.touched.append((m.k, a[2]))
                x.discard(a[2])
                m.ids = m.ids | {a[2]} if m.cpl else m.ids - {a[2]}
            elif k == 'snap':
                # an immutable version taken in the middle
                y = S.immbitset(x)
                ids, cpl = contents(y)
                self.put(a[2], y, M('cpl' if cpl else 'imm', ids, cpl))
                y = None
            x = None

    # -- comparison ---------------------------------------------------
    def check(self, what, only=None, deep=True):
        done = set()
        for s in range(NSLOT):
            x, m = self.slot[s], self.m[s]
            if x is None or m.k in done or (only is not None and m.k not in only):
                continue
            done.add(m.k)
            self.check_set(what, x, m, deep)

    def check_set(self, what, x, m, deep):
        u = self.cfg['universe']
        step = max(1, len(u) // 40)
        for i in u[self.opno % step::step]:
            need((i in x) == m.has(i), 'contents', lambda: '%s: %d in %s set is %s' % (what, i, m.kind, i in x))
        if not m.cpl:
            need(len(x) == len(m.ids), 'contents', lambda: '%s: length of %s set %d, expected %d' % (
                what, m.kind, len(x), len(m.ids)))
        need(bool(x) == (m.cpl or bool(m.ids)), 'contents', lambda: '%s: truth value of %s set with %d elements' % (
            what, m.kind, len(m.ids)))
        need(x.is_immutable == (m.kind != 'mut'), 'contents', 'is_immutable')
        if not deep:
            return
        ids, cpl = contents(x)
        need(cpl == m.cpl, 'contents', lambda: '%s: %s set is %scomplemented' % (what, m.kind, '' if cpl else 'not '))
        d = ids ^ m.ids
        need(not d, 'contents', lambda: '%s: %s set differs in %d elements, as %s' % (what, m.kind, len(d), sorted(d)[:6]))
        if len(ids) <= 100:
            y = S.immbitset(list(ids))
            z = y - S.immbit(max(ids)) if ids else None
            if cpl:
                y = ~y
                z = ~z if z is not None else None
            need(x == y and y == x and not x != y and x <= y and x >= y and not x < y and not y > x, 'comparison',
                 lambda: '%s: %s set and an equal one' % (what, m.kind))
            if z is not None:
                need(x != z and not z == x and (x < z and z > x) == cpl and (x > z and z <= x) != cpl, 'comparison',
                     lambda: '%s: %s set and one that lacks the last element' % (what, m.kind))


def contents(x):
    """(ids, cpl) really in the set, by iteration"""
    cpl = False
    if isinstance(x, CplBitSet):
        x, cpl = ~x, True
    elif isinstance(x, S.MutBitSet):
        y = S.immbitset(x)
        if isinstance(y, CplBitSet):
            x, cpl = ~y, True
        else:
            x = y
        y = None
    lst = list(x)
    for a, b in zip(lst, lst[1:]):
        need(a < b, 'order', lambda: 'iteration gives %d before %d' % (a, b))
    if lst:
        need(x[0] == lst[0] and x[-1] == lst[-1], 'contents', 'first or last element')
    return frozenset(lst), cpl


LIMIT = 1 << 20


def do(w, op):
    name = op[0]
    ctx = w.ctx
    fail = op[-1] if isinstance(op[-1], dict) and 'fail' in op[-1] else None
    at, burst = fail['fail'] if fail else (0, 0)
    w.touched = []
    w.fired = 0
    w.opno += 1
    sl = w.slot
    what = name

    def call(f, *args):
        try:
            return True, simrt.call(f, args, None, at, burst, 0)
        except BaseException as e:
            e.__traceback__ = None
            return False, e
        finally:
            w.fired = simrt.last()[1]
            ctx.fault('alloc_failure', w.fired)

    def failed(e, *also):
        if w.fired and isinstance(e, MemoryError):
            return True
        if also and isinstance(e, also):
            return True
        raise Violation('wrong-exception', '%s raised %s: %s' % (what, type(e).__name__, e))

    def must_fail(okd, r, *exc):
        if okd:
            raise Violation('no-error', '%s: expected %s, got %r' % (what, exc[0].__name__, r))
        failed(r, *exc)

    def explain(m, pre, want, wantc, partial):
        """after a disturbed operation on a mutable set: adopt what is there"""
        for s in range(NSLOT):
            if sl[s] is not None and w.m[s] is m:
                x = sl[s]
                break
        else:
            return
        ids, cpl = contents(x)
        free = {i for k, i in w.touched if k == m.k}
        if None in free:
            m.ids, m.cpl = ids, cpl
            return
        pids, pc = pre
        okc = {wantc, pc} if partial else {wantc}
        need(cpl in okc, 'contents', lambda: '%s: complementedness after a failure' % what)
        for i in (ids | pids | want):
            if i in free:
                continue
            g = (i in ids) != cpl
            if g == ((i in want) != wantc) or partial and g == ((i in pids) != pc):
                continue
            raise Violation('contents', '%s: element %d %s after a disturbed operation' % (
                what, i, 'is present but should not be' if g else 'is missing'))
        m.ids, m.cpl = ids, cpl

    def usable(x):
        return x is not None

    if name == 'new':
        kind, d, dst = op[1:4]
        what = 'new ' + kind
        a = w.operand(d) if d is not None else (None, frozenset(), False, None, False)
        if a is not None:
            x, ids, cpl, lst, raises = a
            f = {'mut': S.MutBitSet, 'smut': SubMut, 'imm': S.ImmBitSet, 'simm': SubImm, 'any': S.immbitset,
                 'cpl': CplBitSet, 'scpl': SubCpl, 'mutcopy': None}[kind]
            ism = kind in ('mut', 'smut')
            if kind in ('cpl', 'scpl'):
                okd, r = call(f, *([x] if d is not None else []))
                if d is None or not isinstance(x, S.ImmBitSet):
                    must_fail(okd, r, TypeError)
                elif okd:
                    w.put(dst, r, M('cpl', ids, True))
                else:
                    failed(r)
            else:
                if kind == 'mutcopy':
                    if not isinstance(x, S.BitSet):
                        return
                    okd, r = call(x.mutcopy)
                    ism = True
                else:
                    okd, r = call(f, *([x] if d is not None else []))
                if w.touched:
                    # an operand changed in the middle: only a generator does that
                    w.touched = []
                if raises:
                    must_fail(okd, r, Boom, TypeError, OverflowError)
                elif cpl and kind in ('imm', 'simm'):
                    must_fail(okd, r, TypeError)
                elif okd:
                    w.put(dst, r, M('mut' if ism else 'cpl' if cpl else 'imm', ids, cpl))
                    if kind == 'smut':
                        need(type(r) is SubMut, 'type', 'subclass')
                else:
                    failed(r)
            r = x = a = None
    elif name == 'range':
        lo, hi, step, dst = op[1:5]
        args = [lo, hi, step] if step != 1 or op[5] else [lo, hi]
        okd, r = call(S.immbitrange, *args)
        if okd:
            w.put(dst, r, M('imm', range(lo, hi, step), False))
        else:
            failed(r)
    elif name == 'immbit':
        okd, r = call(S.immbit, op[1])
        if okd:
            w.put(op[2], r, M('imm', [op[1]], False))
        else:
            failed(r)
    elif name == 'drop':
        sl[op[1]] = None
        w.m[op[1]] = None
    elif name == 'alias':
        if sl[op[1]] is not None:
            w.slot[op[2]] = sl[op[1]]
            w.m[op[2]] = w.m[op[1]]
    elif name == 'split':
        x = sl[op[1]]
        if x is not None and w.m[op[1]].kind == 'mut':
            x._splitting_size = op[2]
    elif name == 'iop':
        o, s, d = op[1:4]
        what = 'in-place ' + o
        x, m = sl[s], w.m[s]
        a = w.operand(d) if x is not None else None
        if a is not None:
            y, ids, cpl, lst, raises = a
            pre = m.ids, m.cpl
            what += ' of %s%s with %s' % ('complemented ' if m.cpl else '', m.kind,
                                          d['k'] if d['k'] != 'slot' else ('complemented ' if cpl else '') + w.m[d['s']].kind)
            okd, r = call(IOPS[o], x, y)
            if m.kind == 'mut':
                if lst is not None:
                    if o == 'xor':
                        acc = set()
                        for i in lst:
                            acc ^= {i}
                        bids = frozenset(acc)
                    else:
                        bids = frozenset(lst)
                    if raises and o == 'and':
                        want, wc = pre
                    else:
                        want, wc = set_op(o, pre[0], pre[1], bids, False)
                else:
                    want, wc = set_op(o, pre[0], pre[1], ids, cpl)
                if okd:
                    need(not raises, 'no-error', lambda: '%s: an error of the operand was lost' % what)
                    need(r is x, 'contents', 'in-place operation gives another object')
                    w.slot[s] = r
                    w.m[s] = m
                    if w.touched:
                        explain(m, pre, want, wc, False)
                    else:
                        m.ids, m.cpl = want, wc
                else:
                    part = bool(w.fired)
                    if part or not raises:
                        failed(r, *((Boom, TypeError, OverflowError) if raises else ()))
                    else:
                        failed(r, Boom, TypeError, OverflowError)
                    if o == 'xor' and lst is not None and part:
                        # an element given twice may be seen after its first toggle
                        w.touched.extend((m.k, i) for i in lst if lst.count(i) > 1)
                    if part or w.touched:
                        explain(m, pre, want, wc, part)
                    else:
                        m.ids, m.cpl = want, wc
            else:
                # an immutable set: the name is bound to a new set
                if raises:
                    must_fail(okd, r, Boom, TypeError, OverflowError)
                elif okd:
                    want, wc = set_op(o, pre[0], pre[1], ids, cpl)
                    w.put(s, r, M('cpl' if wc else 'imm', want, wc))
                else:
                    failed(r)
            r = y = a = None
        x = None
    elif name == 'bop':
        o, s, d, dst, swap = op[1:6]
        x, m = sl[s], w.m[s]
        a = w.operand(d) if x is not None else None
        if a is not None:
            y, ids, cpl, lst, raises = a
            what = 'binary %s of %s%s with %s' % (o, 'complemented ' if m.cpl else '', m.kind, d['k'])
            k1 = m.ids, m.cpl
            if lst is not None and type(y) is list and False:
                pass
            okd, r = call(BOPS[o], *((y, x) if swap else (x, y)))
            if raises:
                must_fail(okd, r, Boom, TypeError, OverflowError)
            elif okd:
                if w.touched:
                    k1 = None
                if k1 is not None:
                    want, wc = set_op(o, *((ids, cpl) + k1)) if swap else set_op(o, *(k1 + (ids, cpl)))
                    w.put(dst, r, M('cpl' if wc else 'imm', want, wc))
                else:
                    w.touched = []
            else:
                failed(r)
            r = y = a = None
        x = None
    elif name == 'inv':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None:
            okd, r = call(op_.invert, x)
            if okd:
                w.put(op[2], r, M('imm' if m.cpl else 'cpl', m.ids, not m.cpl))
            else:
                failed(r)
        x = r = None
    elif name == 'shift':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None:
            n = op[2]
            want = frozenset(i + n for i in m.ids)
            fits = all(-(1 << 63) <= i < (1 << 63) for i in want)
            okd, r = call(op_.lshift, x, n)
            what = 'shift'
            if fits:
                if okd:
                    w.put(op[3], r, M('cpl' if m.cpl else 'imm', want, m.cpl))
                else:
                    failed(r)
            else:
                must_fail(okd, r, OverflowError)
        x = r = None
    elif name == 'pickle':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and not fail:
            r = pickle.loads(pickle.dumps(x, op[3])) if op[3] < 5 else copy.copy(x)
            w.put(op[2], r, M(m.kind, m.ids, m.cpl))
        x = r = None
    elif name in ('add', 'append', 'discard', 'remove', 'tas', 'tac'):
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and m.kind == 'mut':
            i = op[2]
            was = m.has(i)
            okd, r = call(getattr(x, name), i)
            up = name in ('add', 'append', 'tas')
            err = name == 'append' and was or name == 'remove' and not was
            what = '%s on %sset' % (name, 'complemented ' if m.cpl else '')
            if err:
                must_fail(okd, r, ValueError)
            elif okd:
                if name in ('tas', 'tac'):
                    need(bool(r) == was, 'wrong-answer', lambda: '%s gave %r' % (what, r))
                m.ids = m.ids - {i} if m.cpl == up else m.ids | {i}
            else:
                failed(r)
        x = r = None
    elif name == 'pop':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and m.kind == 'mut':
            for _ in range(op[3]):
                okd, r = call(x.pop, op[2])
                if m.cpl or not m.ids:
                    must_fail(okd, r, ValueError)
                    break
                if not okd:
                    failed(r)
                    break
                want = min(m.ids) if op[2] == 0 else max(m.ids)
                need(r == want, 'wrong-answer', lambda: 'pop(%d) gave %d, expected %d' % (op[2], r, want))
                m.ids = m.ids - {r}
        x = r = None
    elif name == 'clear':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and m.kind == 'mut':
            what = 'clear of %sset' % ('complemented ' if m.cpl else '')
            okd, r = call(x.clear)
            if okd:
                m.ids, m.cpl = frozenset(), False
            else:
                failed(r)
        x = r = None
    elif name == 'index':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and m.kind != 'cpl':
            i = op[2]
            okd, r = call(lambda: x[i]) if not fail else (True, x[i]) if m.ids and not m.cpl and i in (0, -1) else call(op_.getitem, x, i)
            if m.cpl or not m.ids or i not in (0, -1):
                must_fail(okd, r, IndexError)
            else:
                need(okd, 'wrong-exception', 'index: %r' % (r,))
                need(r == (max(m.ids) if i else min(m.ids)), 'wrong-answer', lambda: '[%d] gave %r' % (i, r))
        x = r = None
    elif name == 'slice':
        s, lo, hi, dst = op[1:5]
        x, m = sl[s], w.m[s]
        if x is not None and m.kind != 'cpl':
            what = 'slice [%s:%s]' % ('' if lo is None else lo, '' if hi is None else hi)
            okd, r = call(op_.getitem, x, slice(lo, hi))
            l = lo or 0
            if l == 0 and hi is None:
                if okd:
                    w.put(dst, r, M('cpl' if m.cpl else 'imm', m.ids, m.cpl))
                else:
                    failed(r)
            elif m.cpl:
                must_fail(okd, r, IndexError)
            elif l == 0 and hi > 0 or l < 0 and hi is None:
                want = sorted(m.ids)[:hi] if l == 0 else sorted(m.ids)[l:]
                if okd:
                    w.put(dst, r, M('imm', want, False))
                else:
                    failed(r)
            else:
                must_fail(okd, r, IndexError)
        x = r = None
    elif name == 'badslice':
        s, which = op[1:3]
        x, m = sl[s], w.m[s]
        if x is not None and m.kind != 'cpl':
            sc = [slice('a', None), slice(None, 'b'), slice(None, None, 2), slice(1 << 80, None), slice(None, 1 << 80),
                  slice(None, 3, 'c'), slice(-(1 << 80), None)][which]
            what = 'slice %r' % (sc,)
            okd, r = call(op_.getitem, x, sc)
            if okd and which in (3, 4, 6) and not m.cpl:
                # taking the number as very large is as good as an error
                ids, cpl = contents(r)
                want = m.ids if which in (4, 6) else frozenset()
                need((ids, cpl) == (want, False), 'wrong-answer', lambda: '%s gave %d of %d elements' % (
                    what, len(ids), len(m.ids)))
            else:
                must_fail(okd, r, IndexError, TypeError, OverflowError, ValueError)
        x = r = None
    elif name == 'cmp':
        o, s, d = op[1:4]
        x, m = sl[s], w.m[s]
        y, n = sl[d], w.m[d]
        if x is not None and y is not None:
            okd, r = call(COPS[o], x, y)
            if okd:
                want = CMP[o](m, n)
                need(r is want, 'wrong-answer', lambda: '%s%s %s %s%s is %r' % (
                    '~' * m.cpl, m.kind, o, '~' * n.cpl, n.kind, r))
            else:
                failed(r)
        x = y = None
    elif name == 'hash':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and m.kind != 'mut':
            h = hash(x)
            for s in range(NSLOT):
                if sl[s] is not None and w.m[s].kind != 'mut' and eq(w.m[s], m):
                    need(hash(sl[s]) == h, 'hash', 'equal sets with different hash')
        x = None
    elif name == 'int':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and (not m.ids or max(m.ids) < LIMIT):
            okd, r = call(int, x)
            if m.ids and min(m.ids) < 0:
                must_fail(okd, r, OverflowError)
            elif okd:
                v = 0
                for i in m.ids:
                    v |= 1 << i
                if m.cpl:
                    v = ~v
                need(r == v, 'wrong-answer', 'int() of a %s set' % m.kind)
            else:
                failed(r)
        x = r = None
    elif name == 'iter':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and m.kind != 'cpl':
            okd, r = call(iter, x)
            if m.cpl:
                # the docs leave it open: some error now or later
                if okd:
                    okd, r = call(list, r)
                must_fail(okd, r, TypeError)
            elif okd:
                w.it[op[2]] = [r, sorted(m.ids)]
            else:
                failed(r)
        x = r = None
    elif name == 'next':
        t = w.it[op[1]]
        if t is not None:
            for _ in range(op[2]):
                okd, r = call(next, t[0])
                if okd:
                    need(t[1], 'iteration', lambda: 'iterator yields %d after its end' % r)
                    want = t[1][0]
                    need(r == want, 'iteration', lambda: 'iterator of a snapshot gave %d, expected %d' % (r, want))
                    t[1] = t[1][1:]
                elif isinstance(r, StopIteration):
                    need(not t[1], 'iteration', lambda: 'iterator misses %s' % t[1][:5])
                    break
                else:
                    failed(r)
                    w.it[op[1]] = None
                    break
        t = r = None
    elif name == 'repr':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and len(m.ids) < 200:
            okd, r = call(repr, x)
            if okd:
                y = eval(r.replace('SubMut', 'MutBitSet').replace('SubImm', 'ImmBitSet'),
                         dict(MutBitSet=S.MutBitSet, ImmBitSet=S.ImmBitSet))
                need(contents(y) == (m.ids, m.cpl), 'wrong-answer', lambda: 'repr: %s' % r[:100])
            else:
                failed(r)
        x = y = r = None
    elif name == 'check':
        w.check('before')
        return
    elif name == 'len':
        x, m = sl[op[1]], w.m[op[1]]
        if x is not None and m.cpl:
            okd, r = call(len, x)
            must_fail(okd, r, TypeError)
        x = None
    else:
        raise HarnessError('unknown op %r' % (name,))
    w.touched = []
    c = w.cfg['chk']
    if w.fired:
        ctx.probe('op_failed_with_memory_error')
        w.check(what + ' (failed)' if w.fired else what)
    elif w.opno % c == 0:
        w.check(what, deep=w.opno % w.cfg['deep'] == 0)
    ctx.step()
    ctx.log(name, [None if m is None else (m.k, m.kind, m.cpl, len(m.ids), hash(m.ids)) for m in w.m])
    ctx.state(name, tuple(None if m is None else (m.kind, m.cpl, min(len(m.ids), 4)) for m in w.m)[:2], bool(w.fired))
    for x, m in zip(sl, w.m):
        if x is not None and m.kind == 'mut':
            n = x._num_seg
            if n > 1:
                ctx.probe('segmented_set')
            if n > 4:
                ctx.probe('many_segments')
    x = None


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = World(ctx, cfg)
    errs = []
    sys.unraisablehook = lambda a: errs.append(repr(a.exc_value))
    for op in plan['ops']:
        do(w, op)
        if errs:
            raise Violation('unraisable', '%s: %s' % (op[0], errs[0]))
    w.check('at the end')
    for t in w.it:
        if t is not None:
            need(list(t[0]) == t[1], 'iteration', 'a snapshot iterator changed')
    w.it = w.slot = w.m = None
    gc.collect()
    simrt.check()


# ---------------------------------------------------------------------

def gen(rng, tier):
    style = rng.choice(['plain', 'alloc', 'alloc', 'segs', 'segs', 'iterb', 'big'] if rng.random() < .5 else
                       ['plain', 'alloc', 'segs', 'iterb'])
    base = rng.choice([0, 0, 0, -70, 1000, -(1 << 63), (1 << 63) - 6000, -5000, 1 << 40])
    shape = rng.choice(['dense', 'sparse', 'sparse', 'mixed', 'edges'])
    n = rng.choice([4, 10, 30, 60]) if style != 'big' else rng.choice([1100, 1600, 3000])
    top = (1 << 63) - 1
    if shape == 'dense':
        u = [base + i for i in range(n)]
    elif shape == 'sparse' or style == 'big':
        st = rng.choice([W, W, 2 * W, 100]) if style != 'big' or abs(base) < 1 << 60 else 1
        u = [base + i * st for i in range(n)]
    elif shape == 'mixed':
        u = [base + i * W + rng.randrange(W) for i in range(n // 2)] + [base + rng.randrange(n * W) for i in range(n - n // 2)]
    else:
        u = [c + k for c in (0, -64, 64, 1 << 31, -(1 << 31), 1 << 32, -(1 << 63) + 65, (1 << 63) - 130)
             for k in (-65, -64, -63, -2, -1, 0, 1, 2, 62, 63, 64, 65)]
        rng.shuffle(u)
        u = u[:n]
    u = sorted({i for i in u if -(1 << 63) <= i <= top})
    cfg = dict(style=style, mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), universe=u,
               chk=rng.choice([1, 1, 2, 3, 7]), deep=rng.choice([1, 2, 2, 5]))
    ops = []
    names = ['new', 'range', 'immbit', 'drop', 'alias', 'split', 'iop', 'bop', 'inv', 'shift', 'pickle', 'add', 'append',
             'discard', 'remove', 'tas', 'tac', 'pop', 'clear', 'index', 'slice', 'badslice', 'cmp', 'hash', 'int', 'iter',
             'next', 'repr', 'check', 'len']
    wt = {k: rng.choice([0, 1, 2, 3]) for k in names}
    for k, b in (('new', 4), ('iop', 5), ('bop', 2), ('add', 3), ('cmp', 2), ('pop', 2), ('discard', 2), ('slice', 1)):
        wt[k] += b
    for k in ('badslice', 'len', 'clear', 'drop', 'repr', 'pickle'):
        wt[k] = min(wt[k], 1)
    if style == 'segs':
        wt['split'] += 2
    names = [k for k in names if wt[k]]
    weights = [wt[k] for k in names]

    def slot():
        return rng.randrange(NSLOT) if rng.random() < .4 else rng.randrange(2)

    def bit():
        if rng.random() < .05:
            return rng.choice([-(1 << 63), top, 0, -1])
        i = rng.choice(u)
        if rng.random() < .25:
            i = max(-(1 << 63), min(top, i + rng.choice([-1, 1, 63, 64, -64])))
        return i

    def vals():
        k = rng.random()
        if k < .35:
            a = rng.randrange(len(u))
            b = rng.randrange(a, len(u)) + 1
            v = u[a:b:rng.choice([1, 1, 2, 3])]
            if rng.random() < .3:
                v = v[::-1]
            elif rng.random() < .3:
                v = v[:]
                rng.shuffle(v)
            return v
        return [bit() for _ in range(rng.choice([0, 1, 2, 3, 6, 12]))]

    def script():
        r = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['clear', 'add', 'discard', 'snap'])
            r.append([k, slot()] + ([bit()] if k in ('add', 'discard') else [slot()] if k == 'snap' else []))
        return r

    def arg(slots=.5):
        if rng.random() < slots:
            return dict(k='slot', s=slot())
        k = rng.choice(['list', 'list', 'tuple', 'dict', 'int', 'gen', 'gen', 'bad'])
        if k == 'int':
            bits = [i for i in vals() if 0 <= i < 5000]
            return dict(k=k, bits=bits, neg=int(rng.random() < .4))
        d = dict(k=k, v=vals())
        if k == 'bad':
            d.update(what=rng.choice(['f', 's', 'big', 'neg']), lst=int(rng.random() < .5))
            d['raise'] = rng.randrange(len(d['v']) + 1)
        if k == 'gen':
            if rng.random() < .3:
                d['raise'] = rng.randrange(len(d['v']) + 1)
            if style == 'iterb' and rng.random() < .6 and d['v']:
                d['at'] = rng.randrange(len(d['v']))
                d['script'] = script()
        return d
    # something to start with
    for s in range(2):
        ops.append(['new', 'mut', None, s])
        if style == 'segs':
            ops.append(['split', s, rng.choice([0, 1, 2, 3, 8])])
        ops.append(['iop', 'or', s, dict(k='list', v=vals() if style != 'big' else rng.choice([u, u[::-1], u[::2] + u[1::2]]))])
    nops = rng.choice([6, 15, 30, 50]) if style != 'big' else rng.choice([5, 12])
    for _ in range(nops):
        n = rng.choices(names, weights)[0]
        if n == 'new':
            op = [n, rng.choice(['mut', 'mut', 'mutcopy', 'mutcopy', 'smut', 'imm', 'simm', 'any', 'any', 'cpl', 'scpl']),
                  arg(.7) if rng.random() < .95 else None, slot()]
            if op[1] == 'mutcopy' and op[2] is None:
                op[1] = 'mut'
        elif n == 'range':
            lo = bit()
            k = rng.choice([0, 1, 5, 60, 64, 130, 500])
            st = rng.choice([1, 1, 2, 3, 7, 63, 64, 65, 100, 1000])
            op = [n, lo, min(top, lo + k * rng.choice([1, st])), st, slot(), rng.randrange(2)]
        elif n == 'immbit':
            op = [n, bit(), slot()]
        elif n in ('drop', 'clear', 'hash', 'int', 'repr', 'len'):
            op = [n, slot()]
        elif n == 'alias':
            op = [n, slot(), slot()]
        elif n == 'split':
            op = [n, slot(), rng.choice([0, 1, 2, 4, 10, 500])]
        elif n == 'iop':
            op = [n, rng.choice(list(IOPS)), slot(), arg()]
        elif n == 'bop':
            op = [n, rng.choice(list(IOPS)), slot(), arg(), slot(), int(rng.random() < .3)]
        elif n == 'inv':
            op = [n, slot(), slot()]
        elif n == 'shift':
            op = [n, slot(), rng.choice([0, 1, -1, 63, 64, 65, -64, 128, -300, 1 << 40, -(1 << 62), 1 << 62, top, -(1 << 63)]), slot()]
        elif n == 'pickle':
            op = [n, slot(), slot(), rng.choice([0, 1, 2, 4, 5])]
        elif n in ('add', 'append', 'discard', 'remove', 'tas', 'tac'):
            op = [n, slot(), bit()]
        elif n == 'pop':
            op = [n, slot(), rng.choice([0, -1]), rng.choice([1, 1, 2, 5, 20])]
        elif n == 'index':
            op = [n, slot(), rng.choice([0, -1, -1, 0, 1, -2])]
        elif n == 'slice':
            op = [n, slot()] + rng.choice([[None, None], [0, 1], [None, 2], [None, rng.randrange(1, 40)], [-1, None],
                                          [-rng.randrange(1, 40), None], [-2, None], [1, 3], [0, 0], [0, -1], [-3, -1]]) + [slot()]
        elif n == 'badslice':
            op = [n, slot(), rng.randrange(7)]
        elif n == 'cmp':
            op = [n, rng.choice(list(CMP)), slot(), slot()]
        elif n == 'iter':
            op = [n, slot(), rng.randrange(3)]
        elif n == 'next':
            op = [n, rng.randrange(3), rng.choice([1, 2, 5, 99])]
        elif n == 'check':
            op = [n]
        if style in ('alloc', 'big') and n not in ('drop', 'alias', 'split', 'hash', 'check', 'len', 'pickle', 'iter', 'next', 'index') \
                and rng.random() < .5:
            for d in op:
                if isinstance(d, dict) and d.get('k') == 'gen':
                    # failures inside interpreted callbacks are not ours to judge
                    d['k'] = 'list'
                    d.pop('raise', None)
            op.append(dict(fail=[rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 14, 20]), rng.choice([1, 1, 1, 2, 50])]))
        ops.append(op)
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    c = plan['cfg']
    if c['chk'] != 1 or c['deep'] != 1:
        yield dict(plan, cfg=dict(c, chk=1, deep=1))
    for i, op in enumerate(plan['ops']):
        for j, x in enumerate(op):
            if isinstance(x, dict):
                for key in ('v', 'bits'):
                    v = x.get(key, ())
                    if len(v) > 1:
                        h = max(1, len(v) // 2)
                        for k in range(0, len(v), h) if len(v) > 12 else range(len(v)):
                            hh = h if len(v) > 12 else 1
                            y = dict(x)
                            y[key] = v[:k] + v[k + hh:]
                            yield dict(plan, ops=plan['ops'][:i] + [op[:j] + [y] + op[j + 1:]] + plan['ops'][i + 1:])
