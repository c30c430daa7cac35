"""C05: what any thread holds is visible; the analyser itself is not.

Threads run generated call stacks and are stopped, by handing on a lock, at
chosen points. The model knows, by address, what every frame and thread
state holds; it has no references to it.
"""
import sys, os, gc, types, random, threading, _thread, contextvars, codecs, builtins, ctypes, _testcapi
import simrt
import prop_c07 as c07
from simctx import Violation, HarnessError, need

REAL = _thread.allocate_lock
FR = types.FrameType
SETEXC = ctypes.pythonapi.PyThreadState_SetAsyncExc
SETEXC.argtypes = [ctypes.c_ulong, ctypes.py_object]


def cdict(name):
    f = getattr(ctypes.pythonapi, name)
    f.restype = ctypes.c_void_p
    if name == 'PyInterpreterState_GetDict':
        g = ctypes.pythonapi.PyInterpreterState_Get
        g.restype = ctypes.c_void_p
        f.argtypes = [ctypes.c_void_p]
        return lambda: ctypes.cast(f(g()), ctypes.py_object).value
    return lambda: ctypes.cast(f(), ctypes.py_object).value


INTERPDICT = cdict('PyInterpreterState_GetDict')
THREADDICT = cdict('PyThreadState_GetDict')


class Obj:
    pass


class Slotted:
    __slots__ = ('a',)


class Named(list):
    pass


MAKERS = [Obj, Slotted, list, dict, object, Named, lambda: Obj.__init__, set, lambda: types.SimpleNamespace(a=1), lambda: (lambda: 0), lambda: bytearray(b'x'), lambda: 1e9 + random.random()]


class Stop(BaseException):
    pass


class T:
    """a thread of the program"""

    def __init__(self, w, no, script):
        self.w, self.no, self.script = w, no, script
        self.pos = 0
        self.go = REAL()
        self.go.acquire()
        self.state = 'new'
        self.held = []
        self.gen = 0
        self.ident = None
        self.ended = self.kept = 0

    def next(self):
        if self.w.over or self.pos >= len(self.script):
            return None
        self.pos += 1
        return self.script[self.pos - 1]

    def mk(self, scope='frame', how='local'):
        o = MAKERS[self.w.count % len(MAKERS)]()
        self.w.count += 1
        self.held.append((id(o), scope, how, type(o).__name__))
        return o

    def note(self, o, scope, how):
        self.held.append((id(o), scope, how, type(o).__name__))

    def drop(self, n=1):
        if n:
            del self.held[-n:]

    def pause(self):
        if self.no == 0:
            return
        self.w.ctrl.release()
        self.go.acquire()

    def back(self):
        if not self.ended:
            self.ended = 1
            self.w.ctrl.release()


def body(t):
    """go on with the script, in a frame called by one of the program"""
    while True:
        op = t.next()
        if op is None or op[0] == 'pop':
            return
        if op[0] == 'push':
            depth = len(t.held)
            t.w.ctx.log('push', t.no, op[1])
            FRAMES[op[1] % len(FRAMES)](t)
            if t.w.unr:
                raise t.w.unr.pop(0)
            if len(t.held) != depth:
                raise HarnessError('%r does not balance' % FRAMES[op[1] % len(FRAMES)])
        elif op[0] == 'pause':
            t.pause()
        elif t.no == 0:
            OPS[op[0]](t, op)


# The frames

def f_local(t):
    x = t.mk()
    body(t)
    t.drop()


def f_rebound(t):
    x = Obj()
    y = x
    del y
    x = t.mk(how='rebound')
    body(t)
    t.drop()


def f_args(t, *args, **kw):
    if not args:
        return f_args(t, t.mk(how='*args'), t.mk(how='*args'), k=t.mk(how='**kw'))
    body(t)
    t.drop(3)


def f_posonly(t, a=None, /, b=None, *, c=None):
    if a is None:
        return f_posonly(t, t.mk(how='/'), t.mk(how='arg'), c=t.mk(how='*,'))
    body(t)
    t.drop(3)


def f_cell(t):
    x = t.mk(how='cell')

    def inner():
        return x
    body(t)
    t.drop()


def f_argcell(t, x=None):
    if x is None:
        return f_argcell(t, t.mk(how='argument cell'))

    def inner():
        nonlocal x
        return x
    body(t)
    t.drop()


def f_free(t):
    def outer():
        x = t.mk(how='free')

        def inner():
            body(t)
            return x
        return inner
    outer()()
    t.drop()


def f_emptycell(t):
    def inner():
        return x
    y = t.mk(how='with an empty cell')
    body(t)
    x = 1
    t.drop()


def f_unbound(t):
    x = t.mk(how='next to an unbound one')
    if not t:
        z = 1
    u = 1
    del u
    body(t)
    t.drop()


def f_many(t):
    a0 = a1 = a2 = a3 = a4 = a5 = a6 = a7 = a8 = a9 = 0
    b0 = b1 = b2 = b3 = b4 = b5 = b6 = b7 = b8 = b9 = t
    c0 = t.mk(how='21st local')
    d0 = d1 = d2 = d3 = d4 = d5 = d6 = d7 = d8 = d9 = t
    body(t)
    e0 = t
    t.drop()


def f_class(t):
    class C:
        x = t.mk(how='class body')
        body(t)
    t.drop()


def f_classcell(t):
    y = t.mk(how='used by a class body')

    class C:
        z = t.mk(how='class body with cells')

        def m(self):
            return __class__, y
        body(t)
    t.drop(2)


class Space(dict):
    pass


def f_prepare(t):
    class M(type):
        @classmethod
        def __prepare__(cls, *a):
            return Space(p=t.mk(how='prepared namespace'))

    class C(metaclass=M):
        body(t)
    t.drop()


def f_exec(t):
    exec('x = t.mk(how="exec locals")\nbody(t)\nt.drop()\n', globals(), {'t': t})


def f_execglobals(t):
    exec('x = t.mk(how="exec globals")\nbody(t)\nt.drop()\n', {'t': t, 'body': body})


def f_eval(t):
    g = {'t': t, 'body': body, '__builtins__': {'b': t.mk(how='builtins of a frame')}}
    c = compile('body(t)', 'e', 'eval')
    # only the frame refers to it from now on
    evalin(c, g)
    t.drop()


def evalin(c, g):
    eval(c, g)


def f_genrun(t):
    def gen():
        x = t.mk(how='running generator')
        t.gen += 1
        body(t)
        t.gen -= 1
        t.drop()
        yield
    for _ in gen():
        pass


def f_genheld(t):
    def gen():
        x = t.mk(how='suspended generator')
        yield
        t.drop()
    g = gen()
    next(g)
    body(t)
    list(g)


def f_gennew(t):
    def gen(a):
        yield a
    g = gen(t.mk(how='generator not started'))
    body(t)
    t.drop()


def f_yieldfrom(t):
    def gen():
        x = t.mk(how='generator at the end of yield from')
        t.gen += 1
        body(t)
        t.gen -= 1
        t.drop()
        yield

    def outer():
        y = t.mk(how='yield from')
        yield from gen()
        t.drop()
    list(outer())


class Await:
    def __await__(self):
        yield


def f_coro(t):
    async def inner():
        x = t.mk(how='coroutine')
        t.gen += 1
        body(t)
        t.gen -= 1
        t.drop()
        await Await()

    async def outer():
        y = t.mk(how='awaiting coroutine')
        await inner()
        t.drop()
    c = outer()
    c.send(None)
    try:
        c.send(None)
    except StopIteration:
        pass


def f_coroheld(t):
    async def inner():
        x = t.mk(how='suspended coroutine')
        await Await()
        t.drop()

    async def outer():
        y = t.mk(how='suspended coroutine that waits')
        await inner()
        t.drop()
    c = outer()
    c.send(None)
    body(t)
    try:
        c.send(None)
    except StopIteration:
        pass


def f_agen(t):
    async def gen():
        x = t.mk(how='asynchronous generator')
        t.gen += 1
        body(t)
        t.gen -= 1
        t.drop()
        yield 1

    async def outer():
        async for _ in gen():
            pass
    try:
        outer().send(None)
    except StopIteration:
        pass


def f_sorted(t):
    x = t.mk(how='called from C')
    sorted([1], key=lambda _, y=t.mk(how='default of a key function'): body(t))
    t.drop(2)


def f_map(t):
    def each(x):
        z = t.mk(how='called from map')
        body(t)
        t.drop()
    for _ in map(each, [1]):
        pass


def f_eq(t):
    class K:
        def __hash__(self):
            return 1

        def __eq__(self, other):
            x = t.mk(how='called from a dict')
            body(t)
            t.drop()
            return False
    {K(): 1, K(): 2}


def f_del(t):
    class D:
        def __del__(self):
            x = t.mk(how='finalizer')
            t.note(self, 'frame', 'being finalized')
            body(t)
            t.drop(2)
    D()


def f_gcdel(t):
    # (only once in a while: while one is going on there are no other collections)
    if t.w.collecting:
        return f_del(t)

    class D:
        def __del__(self):
            x = t.mk(how='finalizer in a collection')
            body(t)
            t.drop()
            t.w.collecting = 0
    d = D()
    d.d = d
    t.w.collecting = 1
    del d
    gc.collect()
    if t.w.collecting and not t.w.unr:
        raise HarnessError('not finalized')


def f_except(t):
    try:
        raise ValueError(t.mk(scope='state' if not t.gen else None, how='handled exception'))
    except ValueError:
        body(t)
    t.drop()


def f_exceptas(t):
    try:
        raise ValueError(t.mk(how='handled exception in a local'))
    except ValueError as e:
        body(t)
    t.drop()


def f_finally(t):
    try:
        try:
            raise KeyError(t.mk(scope='state' if not t.gen else None, how='exception going on'))
        finally:
            body(t)
    except KeyError:
        pass
    t.drop()


def f_ftrace(t):
    p = Tracer()
    t.note(p, 'frame', 'f_trace')
    sys._getframe().f_trace = p
    p = None
    body(t)
    sys._getframe().f_trace = None
    t.drop()


class Prof:
    def __call__(self, *a):
        pass


def f_profile(t):
    if sys.getprofile() is not None:
        return body(t)
    p = Prof()
    t.note(p, 'state', 'profile function')
    sys.setprofile(p)
    p = None
    body(t)
    sys.setprofile(None)
    t.drop()


def f_context(t):
    v = contextvars.ContextVar('v')
    v.set(t.mk('state', 'context variable'))
    body(t)
    v.set(None)
    t.drop()


def f_ctxrun(t):
    def inner():
        contextvars.ContextVar('v').set(t.mk('state', 'variable of a context run'))
        body(t)
        t.drop()
    contextvars.copy_context().run(inner)


def f_tls(t):
    t.w.local.x = getattr(t.w.local, 'x', []) + [t.mk('state', 'thread local')]
    body(t)
    t.w.local.x = t.w.local.x[:-1]
    t.drop()


def f_hooks(t):
    old = sys.get_asyncgen_hooks()
    if old != (None, None):
        return body(t)
    a, b = Prof(), Prof()
    t.note(a, 'state', 'firstiter hook')
    t.note(b, 'state', 'finalizer hook')
    sys.set_asyncgen_hooks(a, b)
    del a, b
    body(t)
    sys.set_asyncgen_hooks(*old)
    t.drop(2)


def f_hookone(t):
    old = sys.get_asyncgen_hooks()
    if old != (None, None):
        return body(t)
    a = Prof()
    t.note(a, 'state', 'only hook')
    if t.w.count % 2:
        sys.set_asyncgen_hooks(firstiter=a)
    else:
        sys.set_asyncgen_hooks(finalizer=a)
    del a
    body(t)
    sys.set_asyncgen_hooks(*old)
    t.drop()


class Tracer:
    def __call__(self, *a):
        return None


def f_settrace(t):
    if sys.gettrace() is not None:
        return body(t)
    p = Tracer()
    t.note(p, 'state', 'trace function')
    sys.settrace(p)
    p = None
    body(t)
    sys.settrace(None)
    t.drop()


def f_fork(t):
    def before():
        pass

    def after():
        pass

    def child():
        pass
    t.note(before, 'interp', 'before fork')
    t.note(after, 'interp', 'after fork in the parent')
    t.note(child, 'interp', 'after fork in the child')
    os.register_at_fork(before=before, after_in_parent=after, after_in_child=child)
    del before, after, child
    body(t)
    t.drop(3)


def f_interpdict(t):
    n = 'vsim%d' % t.w.count
    INTERPDICT()[n] = t.mk('interp', 'in the dict of the interpreter')
    body(t)
    del INTERPDICT()[n]
    t.drop()


def f_tsdict(t):
    n = 'vsim%d' % t.w.count
    THREADDICT()[n] = t.mk('state', 'in the dict of the thread')
    body(t)
    del THREADDICT()[n]
    t.drop()


def f_codeccache(t):
    if t.w.codec:
        # (removing another one empties the cache)
        return body(t)
    t.w.codec = 1
    n = 'vsim%d' % t.w.count

    def search(name):
        if name == n:
            r = codecs.CodecInfo(len, len, name=n)
            t.note(r, 'interp', 'codec that was looked up')
            return r
    codecs.register(search)
    codecs.lookup(n)
    body(t)
    codecs.unregister(search)
    t.w.codec = 0
    t.drop()


def f_audit(t):
    if t.w.audit:
        return body(t)
    t.w.audit = 1
    p = Prof()
    t.note(p, 'interp', 'audit hook')
    sys.addaudithook(p)
    del p
    body(t)
    t.drop()


def f_unboundtag(t):
    x = t.mk(how='next to an unbound _hiding_tag_')
    if not t:
        _hiding_tag_ = 1
    body(t)
    t.drop()


def f_module(t):
    m = types.ModuleType('vsim_m%d' % t.w.count)
    n = m.__name__
    sys.modules[n] = m
    m.x = t.mk('interp', 'in a module')
    del m
    body(t)
    del sys.modules[n]
    t.drop()


def f_builtin(t):
    n = 'vsim_b%d' % t.w.count
    setattr(builtins, n, t.mk('interp', 'in builtins'))
    body(t)
    delattr(builtins, n)
    t.drop()


def f_sys(t):
    n = 'vsim_s%d' % t.w.count
    setattr(sys, n, t.mk('interp', 'in sys'))
    body(t)
    delattr(sys, n)
    t.drop()


def f_codec(t):
    if t.w.codec:
        return body(t)
    t.w.codec = 1

    def search(name):
        return None
    t.note(search, 'interp', 'codec search function')
    codecs.register(search)
    body(t)
    codecs.unregister(search)
    t.w.codec = 0
    t.drop()


def f_error(t):
    n = 'vsim_e%d' % t.w.count
    t.w.count += 1

    def handler(e):
        raise e
    t.note(handler, 'interp', 'error handler')
    codecs.register_error(n, handler)
    del handler
    body(t)
    codecs.register_error(n, codecs.strict_errors)
    t.drop()


def f_tagname(t):
    _hiding_tag_ = t.mk(how='_hiding_tag_ that is not')
    x = t.mk(how='next to a _hiding_tag_ that is not')
    body(t)
    t.drop(2)


def f_tagcell(t):
    def inner():
        return _hiding_tag_
    x = t.mk(how='next to an empty _hiding_tag_')
    body(t)
    _hiding_tag_ = 1
    t.drop()


def f_deep(t, n=None):
    if n is None:
        n = 60
    if n:
        x = t.mk(how='%d deep' % n)
        f_deep(t, n - 1)
        t.drop()
    else:
        body(t)


def f_comp(t):
    [body(t) for x in [t.mk(how='comprehension')]]
    t.drop()


def f_compcell(t):
    [(lambda: x, body(t)) for x in [t.mk(how='comprehension cell')]]
    t.drop()


def f_lambda(t):
    (lambda x: body(t))(t.mk(how='lambda'))
    t.drop()


def f_with(t):
    class CM:
        def __init__(self):
            self.x = t.mk(None, 'context manager')

        def __enter__(self):
            pass

        def __exit__(self, *a):
            y = t.mk(how='__exit__')
            body(t)
            t.drop()
            return True
    with CM():
        raise ValueError
    t.drop()


def f_method(t):
    class A:
        def m(self):
            x = t.mk(how='method')
            body(t)
            t.drop()

    class B(A):
        def m(self):
            y = t.mk(how='super')
            super().m()
            t.drop()
    B().m()


def f_flocals(t):
    x = t.mk(how='local of a frame whose locals were read')
    sys._getframe().f_locals
    body(t)
    t.drop()


def f_frameheld(t):
    # a frame that has ended, and is held
    def f():
        x = t.mk(how='local of a frame that has ended')
        return sys._getframe()
    fr = f()
    body(t)
    t.drop()


def f_framegen(t):
    # ended with an exception
    def f():
        x = t.mk(how='local of a frame that has failed')
        raise ValueError
    try:
        f()
    except ValueError as e:
        tb = e.__traceback__
    body(t)
    t.drop()


def f_cleared(t):
    def f():
        x = Obj()
        return sys._getframe()
    fr = f()
    fr.clear()
    y = t.mk(how='next to a cleared frame')
    body(t)
    t.drop()


def f_match(t):
    match [t.mk(how='matched')]:
        case [x]:
            body(t)
    t.drop()


def f_heapgen(t):
    def gen():
        x = t.mk(how='generator that asks')
        if t.no == 0:
            judge(t, t.w.hp.heap())
        t.drop()
        yield
    list(gen())
    body(t)


def f_heapcoro(t):
    async def co():
        x = t.mk(how='coroutine that asks')
        if t.no == 0:
            judge(t, t.w.hp.heap())
        t.drop()
    try:
        co().send(None)
    except StopIteration:
        pass
    body(t)


def f_heapclass(t):
    class C:
        x = t.mk(how='class body that asks')
        if t.no == 0:
            judge(t, t.w.hp.heap())
    t.drop()
    body(t)


def f_heapexec(t):
    exec('x = t.mk(how="exec that asks")\nif t.no == 0: judge(t, t.w.hp.heap())\nt.drop()\n', globals(), {'t': t})
    body(t)


def f_heapdel(t):
    class D:
        def __del__(self):
            x = t.mk(how='finalizer that asks')
            if t.no == 0:
                judge(t, t.w.hp.heap())
            t.drop()
    D()
    body(t)


def f_heapkey(t):
    def key(x=t.mk(how='default of a function that asks')):
        if t.no == 0:
            for h in map(lambda f: f(), [t.w.hp.heap]):
                judge(t, h)
    key()
    t.drop()
    body(t)


def f_heapcell(t):
    x = t.mk(how='cell of a function that asks')

    def inner(*a, **k):
        y = t.mk(how='function with free variables that asks')
        if t.no == 0:
            judge(t, t.w.hp.heap())
        t.drop()
        return x
    inner(1, z=2)
    body(t)
    t.drop()


def f_heapwith(t):
    class CM:
        def __enter__(self):
            x = t.mk(how='__enter__ that asks')
            if t.no == 0:
                judge(t, t.w.hp.heap())
            t.drop()

        def __exit__(self, *a):
            y = t.mk(how='__exit__ that asks')
            if t.no == 0:
                judge(t, t.w.hp.heap())
            t.drop()
    with CM():
        body(t)


FRAMES = [v for k, v in list(globals().items()) if k.startswith('f_')]


# What the main thread does

def op_step(t, op):
    w = t.w
    o = w.threads[1 + op[1] % (len(w.threads) - 1)] if len(w.threads) > 1 else None
    if o is None:
        return
    if o.state == 'new':
        start(w, o)
        if op[2]:
            # it exists, but has not done anything
            w.ctx.state('just started')
            w.ctx.fault('not_started_thread')
            return
    if o.ended:
        return
    resume(w, o)


def start(w, o):
    o.state = 'started'
    o.ident = _thread.start_new_thread(main, (o,))


def main(o):
    o.go.acquire()
    try:
        if not o.w.over:
            o.w.ctx.log('main', o.no)
            if o.script and o.script[0][0] == 'final':
                o.w.local.fin = Final(o)
                n = holders(o)
            body(o)
            if o.script and o.script[0][0] == 'final' and not o.w.over:
                if not o.w.collecting:
                    gc.collect()
                if holders(o) != n:
                    # a result refers to it
                    o.kept = 1
        o.state = 'finishing'
    except BaseException as e:
        import traceback
        o.err = traceback.format_exc()
        o.state = 'failed'
    if o.w.over or o.kept or o.state == 'failed' or not (o.script and o.script[0][0] == 'final'):
        o.back()


def holders(o):
    return sys.getrefcount(o.w.local.__dict__), sys.getrefcount(o.w.local.fin)


class Final:
    """finalized while its thread ends"""

    def __init__(self, o):
        self.o = o

    def __del__(self):
        o = self.o
        if o.ended or o.kept:
            return
        x = o.mk(how='finalizer at the end of the thread')
        if not o.w.over:
            o.w.ctx.fault('ending_thread')
            o.pause()
        o.drop()
        o.back()


def resume(w, o):
    o.go.release()
    if not w.ctrl.acquire(timeout=20):
        raise HarnessError('thread %d does not come back' % o.no)
    if o.state == 'failed':
        raise Violation('thread', 'thread %d failed\n%s' % (o.no, o.err))


def chain(f):
    while f is not None:
        yield f
        f = f.f_back


def expected(w, scopes, threads):
    return [h for o in threads for h in o.held if h[1] in scopes]


def started(w):
    # (those that end keep what they are finalizing)
    return [o for o in w.threads if o.state != 'new']


def op_snap(t, op):
    """the snapshot, as it is given to the user"""
    h = t.w.hp.heap()
    judge(t, h)
    if op[1]:
        t.w.kept.append(h)
    h = None


def judge(t, h):
    w = t.w
    nodes = h.nodes
    ids = {id(x) for x in nodes}
    x = None
    for i, scope, how, tn in expected(w, ('frame', 'state', 'interp'), w.threads[:1]) + expected(w, ('state', 'interp'), started(w)[1:]):
        need(i in ids, 'snap:' + how.lstrip('0123456789 '), lambda: 'a %s held as %s (%s) is not in the heap' % (tn, how, scope))
    for f in chain(sys._getframe().f_back):
        need(id(f) in ids, 'snap:frame', lambda: 'frame of %s is not in the heap' % f.f_code.co_name)
    f = None
    for x in nodes:
        if type(x) is FR and w.isguppy(x):
            raise Violation('snap:analyser', 'the frame of %s is in the heap' % x.f_code.co_qualname)
    x = None
    for r in w.kept:
        need(id(r.nodes) not in ids and id(r) not in ids, 'snap:result', lambda: 'an earlier result is in the heap')
    r = None
    need(w.hp.View.hv.limitframe is None, 'limitframe', 'a frame limit is left behind')
    w.ctx.log('snap', len(expected(w, ('frame', 'state', 'interp'), w.threads)))
    w.ctx.state('snap', tuple(sorted(o.state for o in w.threads[1:])), len(t.held) // 3)
    nodes = h = None


def op_all(t, op):
    """everything there is, of all threads"""
    w = t.w
    hv = w.hp._parent.View.hv
    nodes = hv.heap()
    ids = {id(x) for x in nodes}
    for i, scope, how, tn in expected(w, ('frame', 'state', 'interp'), started(w)):
        need(i in ids, 'all:' + how.lstrip('0123456789 '), lambda: 'a %s held as %s (%s) is not in the heap of all threads' % (tn, how, scope))
    cur = sys._current_frames()
    for k in cur:
        for f in chain(cur[k]):
            need(id(f) in ids or f is cur[k] and k == w.main, 'all:frame', lambda: 'frame of %s is not in the heap' % f.f_code.co_name)
    f = cur = None
    w.ctx.log('all', len(expected(w, ('frame', 'state', 'interp'), w.threads)))
    w.ctx.state('all', tuple(sorted(o.state for o in w.threads[1:])))


def op_names(t, op):
    """the names of frames and thread states"""
    w = t.w
    root = w.hp._parent.heapyc.RootState
    names = dir(root)
    need(len(set(names)) == len(names), 'names', lambda: 'names are listed twice: %r' % sorted(n for n in names if names.count(n) > 1)[:4])
    cur = sys._current_frames()
    for k in cur:
        fs = list(chain(cur[k]))[::-1]
        if k == w.main:
            # (dir is called here)
            fs = fs[:fs.index(sys._getframe()) + 1]
        for n, f in enumerate(fs):
            nm = 'i0_t%d_f%d' % (k, n)
            need(nm in names, 'names', lambda: '%s, of %s, is not listed' % (nm, f.f_code.co_name))
            need(getattr(root, nm) is f, 'names:frame', lambda: '%s is not the frame of %s' % (nm, f.f_code.co_name))
    f = fs = cur = None
    for n in names:
        try:
            getattr(root, n)
        except AttributeError:
            pass
    for n in ('i0_t%d_f%d' % (w.main, 10 ** (3 + op[1])), 'i0_t1_f0', 'i7_modules', 'i0_', 'i0_t%d_' % w.main, 'i0_t%d_f-1' % w.main, 'i0_t99999999999999999999_f0', 'x'):
        try:
            getattr(root, n)
        except AttributeError:
            continue
        raise Violation('names:wrong', '%s is something' % n)
    need(root.i0_modules is sys.modules, 'names', 'i0_modules is not sys.modules')
    w.ctx.log('names', len(w.threads))


def op_path(t, op):
    """a name of one of the objects, by a path from the root"""
    w = t.w
    ex = expected(w, ('frame', 'state', 'interp'), w.threads[:1]) + expected(w, ('state', 'interp'), started(w)[1:])
    if not ex:
        return
    e = ex[op[1] % len(ex)]
    sig, msg = paths(w, e[0])
    need(sig is None, '%s' % sig, lambda: 'the paths to a %s held as %s (%s): %s' % (e[3], e[2], e[1], msg))
    w.ctx.log('path', e[1:3])
    w.ctx.state('path', e[2])


def paths(w, i):
    hp = w.hp
    r = hp.View.enter(lambda: paths2(w, hp, i))
    need(hp.View.hv.limitframe is None, 'limitframe', 'a frame limit is left behind')
    return r


def op_upath(t, op):
    """the same as a user gets it, of what other threads hold

    (Of what frames of this thread hold: a known finding.)"""
    w = t.w
    ex = expected(w, ('state', 'interp'), started(w)) + expected(w, ('frame',), w.threads[:1] if op[2] else started(w)[1:])
    if not ex:
        return
    e = ex[op[1] % len(ex)]
    sig, msg = paths2(w, w.hp, e[0])
    need(sig is None, '%s%s' % ('k' if op[2] else 'u', sig), lambda: 'the paths to a %s held as %s (%s): %s' % (e[3], e[2], e[1], msg))
    w.ctx.log('upath', e[1:3])
    w.ctx.state('upath', e[2])


def paths2(w, hp, i):
    s = hp._parent.ImpSet.immnodeset(hp._parent.View.hv.heap())
    try:
        s = hp.iso(s.obj_at(i))
    except ValueError:
        return 'path:gone', 'it is not in the heap'
    sp = s.shpaths
    n = 0
    for p in sp.iter(0, 6):
        n += 1
        for k in range(0, len(p.path) - 2, 2):
            src, rel, dst = p.path[k], p.path[k + 1], p.path[k + 2]
            bad = w.step(src, rel, dst)
            if bad:
                return bad, '%s (step %d)' % (str(p) % 'Root', k // 2)
    if not n:
        return 'path:none', 'there are none'
    text = str(sp)
    for k, p in enumerate(sp.iter(0, 10)):
        line = str(p) % '.Root'
        if line not in text:
            return 'path:text', '%r is shown as %r' % (line, text.split('\n')[:k + 1])
    if sp.numpaths < n:
        return 'path:numpaths', 'there are %d, not %d' % (n, sp.numpaths)
    return None, None


def op_gc(t, op):
    if not t.w.collecting:
        gc.collect()
    t.w.ctx.log('gc')


def op_exc(t, op):
    """an exception is on its way to another thread"""
    w = t.w
    o = w.threads[op[1] % len(w.threads)]
    if o.no == 0 or o.state != 'started' or o.ident not in sys._current_frames():
        return

    class E(Stop):
        pass
    SETEXC(o.ident, E)
    w.ctx.fault('exception_on_its_way')
    o.note(E, 'state', 'exception on its way')
    E = None
    if op[2]:
        gc.collect() if not w.collecting else None
    op_snap(t, ['snap', 0])
    op_all(t, op)
    SETEXC(o.ident, ctypes.py_object())
    o.drop()
    w.ctx.log('exc')


def op_interp(t, op):
    """another interpreter"""
    w = t.w
    if len(w.interps) < 2:
        import _xxsubinterpreters as sub
        w.interps.append(sub.create(isolated=False))
        w.ctx.fault('another_interpreter')
        w.ctx.log('interp')


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


class W:
    collecting = audit = codec = 0

    def isguppy(self, f):
        return f.f_code.co_filename.startswith(GUPPYDIR) or f.f_globals.get('__name__', '').startswith('guppy.')

    def refs(self, o):
        return gc.get_referents(o)

    def step(self, src, rel, dst):
        """is the step of a path a real one, properly labelled?"""
        if hasattr(src, 'theone'):
            src = src.theone
        if hasattr(dst, 'theone'):
            dst = dst.theone
        root = self.hp._parent.heapyc.RootState
        if type(dst) is FR and self.isguppy(dst):
            return 'path:analyser'
        if src is root:
            if rel.code != 1:
                return 'path:label'
            if getattr(root, rel.r, self) is not dst:
                return 'path:root'
            return None
        if type(src) is FR:
            if rel.code == 11 or rel is self.hp._parent.Path.norelation:
                return 'path:label'
            if rel.code == 1 and getattr(src, rel.r, self) is not dst and rel.r != 'f_locals':
                return 'path:frame'
            if rel.code == 6 and not any(n == rel.r and v is dst for n, v in simrt.frame_vars(src)):
                return 'path:local'
            if rel.code == 7 and not any(n == rel.r and type(v) is types.CellType and contents(v) is dst for n, v in simrt.frame_vars(src)):
                return 'path:cell'
            return None
        if type(src) in (dict, list, tuple, types.ModuleType) and rel.code in (0, 1, 2, 3, 5) and not c07.follow(self, src, rel, dst):
            return 'path:step'
        return None


def contents(c):
    try:
        return c.cell_contents
    except ValueError:
        return None


def setup():
    global guppy, GUPPYDIR
    import guppy
    import _xxsubinterpreters
    GUPPYDIR = os.path.dirname(guppy.__file__)
    c07.gw.basics()
    h = guppy.hpy()
    h.heap()
    str(h.heap())
    str(h.iso([]).shpaths)
    str(h.iso([]).rp)
    op = ['', 0, 0]
    need(len(FRAMES) > 40, 'catalog', 'few frames')
    gc.collect()


def run(plan, ctx):
    cfg = plan['cfg']
    sys.setswitchinterval(1000)
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = W()
    w.ctx = ctx
    w.over = 0
    w.count = cfg['mseed'] % len(MAKERS)
    w.ctrl = REAL()
    w.ctrl.acquire()
    w.local = threading.local()
    w.kept, w.interps, w.unr = [], [], []
    sys.unraisablehook = lambda u: w.unr.append(u.exc_value)
    w.main = _thread.get_ident()
    w.hp = guppy.hpy()
    gc.collect()
    w.threads = [T(w, i, s) for i, s in enumerate(plan['ops'])]
    w.threads[0].state = 'main'
    try:
        body(w.threads[0])
    finally:
        w.over = 1
        for o in w.threads[1:]:
            if o.state != 'new' and not o.ended:
                o.go.release()
                if not w.ctrl.acquire(timeout=20):
                    raise HarnessError('thread %d does not end' % o.no)
    for o in w.threads[1:]:
        if o.state == 'failed':
            raise Violation('thread', 'thread %d failed\n%s' % (o.no, o.err))
    sys.setprofile(None)
    op_names(w.threads[0], ['names', 3])
    simrt.check()


def gen(rng, tier):
    n = rng.choice([0, 1, 1, 2, 3, 4])
    hot = rng.sample(range(len(FRAMES)), rng.choice([1, 3, 8]))

    def kind():
        return rng.choice(hot) if rng.random() < .6 else rng.randrange(len(FRAMES))

    def stack(k, main):
        s, d = [], 0
        for _ in range(k):
            x = rng.random()
            if x < (.5 if d < 4 else .3):
                s.append(['push', kind()])
                d += 1
            elif x < .62 and d:
                s.append(['pop'])
                d -= 1
            elif not main:
                s.append(['pause'])
            else:
                y = rng.random()
                if y < .4 and n:
                    s.append(['step', rng.randrange(n), int(rng.random() < .2)])
                elif y < .6:
                    s.append(['snap', int(rng.random() < .3)])
                elif y < .72:
                    s.append(['all'])
                elif y < .78:
                    s.append(['names', rng.randrange(4)])
                elif y < .88:
                    s.append(['path', rng.randrange(100)])
                elif y < .93:
                    s.append(['upath', rng.randrange(100), 0])
                elif y < .95:
                    s.append(['gc'])
                elif y < .985:
                    s.append(['exc', rng.randrange(5), rng.randrange(2)])
                else:
                    s.append(['interp'])
        return s
    ops = [stack(rng.choice([6, 12, 20, 30]), True) + [['snap', 0], ['all']]]
    for _ in range(n):
        ops.append(([['final']] if rng.random() < .3 else []) + stack(rng.choice([3, 8, 16]), False))
    return dict(cfg=dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30)), ops=ops)


def shrinks(plan):
    for i in range(len(plan['ops']) - 1, 0, -1):
        if plan['ops'][i]:
            yield dict(cfg=plan['cfg'], ops=plan['ops'][:i] + [[]] + plan['ops'][i + 1:])
    for i, s in enumerate(plan['ops']):
        for n in (16, 8, 4, 2, 1):
            for j in range(0, len(s), n):
                yield dict(cfg=plan['cfg'], ops=plan['ops'][:i] + [s[:j] + s[j + n:]] + plan['ops'][i + 1:])
