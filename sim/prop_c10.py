"""C10: statistics dumped to files and read back, over a simulated file system
with short writes, full disks, I/O errors and crashes at chosen bytes."""
import gc, io, errno, types
import simfs
from simctx import Violation, HarnessError, need

ARENA = False
FILES = ['f0', 'f1', 'f2']


def setup():
    global hp, Part, Use, mods
    import builtins
    from guppy import hpy
    hp = hpy()
    Part, Use = hp._parent.Part, hp
    gc.collect()
    gc.disable()
    hp.iso(1, [], 'a').by('Type').stat
    import guppy.heapy.Part as P, guppy.heapy.Use as U, guppy.heapy.UniSet as S
    mods = [P, U, S]


class Clock:
    def __init__(self, t):
        self.t = t

    def time(self):
        self.t += .125
        return self.t

    def __getattr__(self, a):
        import time
        return getattr(time, a)


# -- what is to be dumped ----------------------------------------------------

NAMES = ['dict of graphworld.X', 'list', 'str: \'a b\'', 'é日本', 'a\u2028b', 'x\x85y', 'x\x0by', 'x\x1cy', ' leading', 'trailing ', '\t', '',
         '.r: 1 2 x', '.end: .loader: _load_stat', '.loader: _load_stat', '\U0001f600', '0', '-1 5', 'a' * 300, "'\\n'", '1 2', '.b_count: 5', '\ufeffx', '<Other>']
CNAMES = ['A', 'B C', 'é', 'n\nl', 'c\rr', 'x\r\ny', '日\n', '\n', 'ü' * 40, 'u\u2028v', '.r: 1 2 x', 'e\n.end: .loader: _load_stat\n', 'l\n.loader: _load_stat']
FORMATS = ['SetFormat', 'IdFormat', 'DiffFormat']


def nname(i):
    # many different ones
    return NAMES[i % len(NAMES)] + (str(i // len(NAMES)) if i >= len(NAMES) else '')


def synthetic(spec, t):
    """lines as a Stat of another process would give them"""
    fmt, rows, head, b = spec
    f = FORMATS[fmt]
    rs = []
    for c, s, n in rows:
        rs.append((1 if f == 'IdFormat' else c, s, nname(n)))
    tr = ['.loader: _load_stat', '.format: %s' % f, '.timemade: %f' % t,
          '.count: %d' % sum(r[0] for r in rs), '.size: %d' % sum(r[1] for r in rs),
          '.kindname: %s' % nname(head), '.kindheader: Kind %s' % nname(head + 1), '.numrows: %d' % len(rs)]
    if f == 'DiffFormat':
        tr += ['.b_count: %d' % b[0], '.b_size: %d' % b[1]]
    for c, s, n in rs:
        tr.append('.r: %d %s' % (s, n) if f == 'IdFormat' else '.r: %d %d %s' % (c, s, n))
    cum = 0
    out = []
    for i, (c, s, n) in enumerate(rs):
        cum += s
        out.append([c, s, n, i, cum])
    return tr, out


def rowsof(stat):
    return [[r.count, r.size, r.name, r.index, r.cumulsize] for r in stat.get_rows()]


def fp(stat):
    """everything a Stat says"""
    d = dict(count=stat.count, size=stat.size, numrows=stat.numrows, len=len(stat), kindheader=stat.kindheader, kindname=stat.kindname,
             timemade=stat.timemade, format=stat.format_name, rows=rowsof(stat))
    if d['format'] == 'DiffFormat':
        d['b'] = [stat.b_count, stat.b_size]
    d['text'] = str(stat)
    d['all'] = repr(stat.all)
    return d


def objects(w, i, j):
    """objects to make a real partition of"""
    if i % 4 == 0:
        return [type(CNAMES[(j + k) % len(CNAMES)], (), {})() for k in range(i % 5 + 1)]
    if i % 4 == 1:
        return [CNAMES[(j + k) % len(CNAMES)] for k in range(i % 7)] + [[], {}, (1, 2), 5, 5.5][:j % 6]
    if i % 4 == 2:
        return [type(CNAMES[(j + k) % len(CNAMES)], (), {}) for k in range(i % 4)] + [types.ModuleType(CNAMES[j % len(CNAMES)])]
    return [list(range(k * j % 17)) for k in range(i % 13 + 2)]


class W:
    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.fs = simfs.FS()
        self.fs.hook = self.hook
        self.fs.readmax = cfg['readmax'] or None
        self.fs.bufsize = cfg['bufsize'] or None
        self.clock = Clock(1e9 + cfg['t'])
        self.stats = []         # [stat, fingerprint]
        self.files = {}         # name -> [(fingerprint, bytes) or torn bytes]
        self.plan = None
        self.written = 0
        self.almost = []        # all there but for the end of the last line

    # -- faults -------------------------------------------------------------
    def hook(self, what, h, n):
        p = self.plan
        self.ctx.step()
        if p is None:
            return
        kind, at = p[0], p[1]
        if what == 'write':
            if kind == 'short':
                self.ctx.fault('short_write')
                m = max(1, min(n, at))
                self.written += m
                return m
            if kind in ('enospc', 'crash') and self.written + n > at:
                m = at - self.written
                if m > 0:
                    self.written += m
                    return m
                self.fire()
                if kind == 'crash':
                    self.fs.crashed = True
                    raise simfs.Crash()
                raise self.fs.error(errno.ENOSPC)
            if kind == 'eio' and self.written >= at:
                self.fire()
                raise self.fs.error(errno.EIO)
            self.written += n
        elif what == 'read' and kind == 'rio':
            p[1] -= 1
            if p[1] < 0:
                self.fire()
                raise self.fs.error(errno.EIO)
        elif what == 'close' and kind == 'cio' and h.w:
            self.fire()
            self.plan = None
            raise self.fs.error(errno.EIO)
        elif what == 'open' and kind == 'oio':
            self.fire()
            raise self.fs.error(errno.EMFILE)

    def fire(self):
        self.ctx.fault({'enospc': 'disk_full', 'crash': 'crash', 'eio': 'write_error', 'rio': 'read_error', 'cio': 'close_error', 'oio': 'open_error'}[self.plan[0]])
        self.fired = True

    def arm(self, fault):
        self.plan = list(fault) if fault else None
        self.written = 0
        self.fired = False

    def name(self, i):
        return FILES[i % len(FILES)]

    def pick(self, i):
        return self.stats[i % len(self.stats)] if self.stats else None


class Stream:
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)


def full(stat):
    """the complete dump, as the code itself writes it to a stream"""
    s = Stream()
    stat.dump(s)
    return ''.join(s.parts).encode()


def same(what, got, want):
    if got != want:
        for k in want:
            if got.get(k) != want[k]:
                raise Violation('differs:' + k, '%s: %s is\n%.700r\nbut was\n%.700r' % (what, k, got.get(k), want[k]))
        raise Violation('differs', what)


def expect(w, what, f):
    """-> (result, exception)"""
    try:
        return f(), None
    except simfs.Crash as e:
        return None, e
    except Exception as e:
        return None, e


def do_mk(w, op):
    _, kind, i, j, spec = op
    t = w.clock.time()
    if kind == 0:
        tr, rows = synthetic(spec, t)
        st = hp.load(tr)
        f = fp(st)
        need(f['rows'] == rows, 'rows', lambda: 'loaded %.600r want %.600r' % (f['rows'], rows))
        need(f['count'] == sum(r[0] for r in rows) and f['size'] == sum(r[1] for r in rows) and f['numrows'] == len(rows), 'totals', 'totals')
    elif kind == 1:
        s = hp.idset(objects(w, i, j))
        s = s.by(['Type', 'Id', 'Size', 'Clodo', 'Unity', 'Module'][j % 6])
        st = s.stat
        f = fp(st)
        p = s.partition
        want = [[r.count, r.size, clean(r.name), r.index, r.cumulsize] for r in p.get_rows()]
        need(f['rows'] == want, 'rows', lambda: 'stat %.600r partition %.600r' % (f['rows'], want))
        need(f['count'] == s.count and f['size'] == s.size, 'totals', 'totals of the statistics of a set')
    elif kind == 2 and w.stats:
        a, b = w.pick(i), w.pick(j)
        if a[1]['kindheader'] != b[1]['kindheader']:
            b = a
        st = a[0] - b[0]
        f = fp(st)
        checkdiff(f, a[1], b[1])
    elif kind == 3 and w.stats:
        a = w.pick(i)
        n = len(a[1]['rows'])
        if j % 3 == 0 and n:
            k = j % n
            st = a[0][k]
            f = fp(st)
            rows = a[1]['rows'][k:k + 1]
        else:
            lo, hi, stp = j % (n + 1), (j * 7) % (n + 3), 1 + j % 2
            st = a[0][lo:hi:stp]
            f = fp(st)
            rows = a[1]['rows'][lo:hi:stp]
        need([r[:3] for r in f['rows']] == [r[:3] for r in rows], 'slice', lambda: 'slice of statistics')
        need(f['count'] == sum(r[0] for r in rows) and f['size'] == sum(r[1] for r in rows), 'slice', 'totals of a slice')
        need(f['timemade'] == a[1]['timemade'] and f['kindheader'] == a[1]['kindheader'], 'slice', 'head of a slice')
    else:
        return
    w.stats.append([st, f])
    w.ctx.log('mk', kind, f['numrows'], f['count'], f['size'], f['format'])
    w.ctx.state('mk', kind, f['format'], min(f['numrows'], 12))


def clean(name):
    """a name that takes several lines in one"""
    return name.replace('\n', ' ').replace('\r', ' ')


def checkdiff(f, a, b):
    """A-B by name"""
    def tab(x, sign, t):
        for c, s, n, i, k in x['rows']:
            e = t.setdefault(n, [0, 0])
            e[0] += sign * c
            e[1] += sign * s
    t = {}
    tab(a, 1, t)
    tab(b, -1, t)
    g = {}
    tab(f, 1, g)
    t = {k: v for k, v in t.items() if v != [0, 0]}
    g = {k: v for k, v in g.items() if v != [0, 0]}
    need(t == g, 'difference', lambda: 'difference %.500r want %.500r' % (g, t))
    need(f['b'] == [b['count'], b['size']], 'difference', 'totals of B')
    need([abs(r[1]) for r in f['rows']] == sorted([abs(r[1]) for r in f['rows']], reverse=True), 'difference', 'order')
    need(f['count'] == sum(v[0] for v in t.values()) and f['size'] == sum(v[1] for v in t.values()), 'difference', 'totals')


def do_dump(w, op):
    _, i, fi, how, fault = op
    a = w.pick(i)
    if a is None:
        return
    name = w.name(fi)
    want = full(a[0])
    fs = w.fs
    before = fs.content(name) or b''
    segs = w.files.setdefault(name, [])
    handles = set(fs.open_now)
    w.arm(fault)
    mode = 'a'
    f = None
    if how == 0:
        r, e = expect(w, 'dump', lambda: a[0].dump(name))
    elif how == 1:
        mode = 'w'
        r, e = expect(w, 'dump', lambda: a[0].dump(name, 'w'))
    elif how == 2:
        r, e = expect(w, 'dump', lambda: a[0].dump(name, mode='a'))
    else:
        # to a stream that is opened and closed by the caller
        def f():
            with fs.open(name, 'a') as g:
                a[0].dump(g)
                need(not g.closed, 'closed', 'dump closed a stream that it did not open')
        r, e = expect(w, 'dump', f)
    w.plan = None
    if isinstance(e, Violation):
        raise e
    if isinstance(e, simfs.Crash):
        fs.after_crash()
    else:
        need(fs.open_now <= handles, 'handle', lambda: 'dump (%r) leaves a file open' % (e,))
        if e is None:
            need(not w.fired or fault[0] in ('short',), 'unreported', lambda: 'dump did not report %r' % (fault,))
        elif not w.fired:
            raise e
        else:
            need(isinstance(e, OSError), 'error', lambda: 'dump reported %r for %r' % (e, fault))
    after = fs.content(name)
    if after is None:
        after = b''
        w.files.pop(name)
        segs = []
    if mode == 'w' and (e is None or after != before):
        del segs[:]
        before = b''
    need(after.startswith(before), 'overwritten', 'a dump changed what was in the file')
    new = after[len(before):]
    need(want.startswith(new), 'content', lambda: 'dump wrote %.300r want %.300r' % (new, want))
    if e is None:
        need(new == want, 'content', lambda: 'dump wrote %.300r want %.300r' % (new, want))
    if new == want:
        segs.append((a[1], want))
    elif new:
        segs.append(new)
        if new.startswith(want[:want.rindex(b'\n.end:') + 1]):
            w.almost.append(a[1])
    w.ctx.log('dump', how, name, len(new), type(e).__name__, fault)
    w.ctx.state('dump', how, fault and fault[0], type(e).__name__, len(segs), new == want)


def reader(w, name, how):
    """an iterator of the stats in a file"""
    fs = w.fs
    if how in (0, 5):
        if how == 0:
            yield lambda: hp.load(name)
        else:
            yield lambda: Use.load(name, use_readline=1)
    elif how in (1, 2):
        f = fs.open(name)
        try:
            while True:
                yield (lambda: hp.load(f)) if how == 1 else (lambda: hp.load(f, use_readline=1))
        finally:
            f.close()
    elif how == 3:
        it = iter(hp.loadall(name))
        while True:
            yield lambda: next(it)
    elif how == 4:
        f = fs.open(name)
        it = iter(hp.loadall(f))
        try:
            while True:
                yield lambda: next(it)
        finally:
            f.close()
    elif how == 6:
        it = iter(fs.content(name).decode('utf-8', 'replace').split('\n'))
        while True:
            yield lambda: hp.load(it)


def do_read(w, op):
    _, fi, how, acc, fault = op
    name = w.name(fi)
    if name not in w.files:
        return
    segs = w.files[name]
    first = next((k for k, s in enumerate(segs) if isinstance(s, bytes)), len(segs))
    want = [s[0] for s in segs if not isinstance(s, bytes)]
    w.arm(fault)
    got = []
    err = None
    if fault and fault[0] == 'oio' and how not in (0, 3, 5):
        w.plan = None       # the harness opens it
    r = reader(w, name, how)
    try:
        nerr = 0
        for nxt in r:
            n = len(got)
            if len(got) > len(want) + 2:
                raise Violation('endless', 'reading %s gives more than was written' % name)
            try:
                st = nxt()
                st = access(w, st, acc, n if n < first else None, want)
            except (StopIteration, Violation) as e:
                if isinstance(e, Violation):
                    raise
                break
            except Exception as e:
                err = e
                nerr += 1
                if how in (3, 4) or w.fired or nerr > len(segs) + 3:
                    break
                continue
            got.append(st)
    finally:
        w.plan = None
        r.close()
    r = nxt = None
    if isinstance(err, UnicodeDecodeError) and first < len(segs):
        w.ctx.probe('torn_character')       # the text is not one; Python reads ahead and says so
    elif w.fired:
        need(isinstance(err, OSError), 'unreported', lambda: 'reading did not report a failing read, but %r' % (err,))
    elif how not in (0, 5):
        need(len(got) >= first, 'missing', lambda: '%d of %d complete dumps were read from %s (%d), %r' % (len(got), first, name, how, err))
    elif first:
        need(len(got) == 1, 'missing', lambda: 'the first dump of %s cannot be read: %r' % (name, err))
    if err is not None and not w.fired and first == len(segs):
        raise Violation('error', 'reading %s (%d) raised %r' % (name, how, err)) from err
    for k, g in enumerate(got):
        if k < first:
            same('dump %d of %s (%d)' % (k, name, how), g, want[k])
        else:
            # after a dump that was cut short nothing is promised, but what is shown must have been dumped
            need(any(g == x for x in want + w.almost), 'torn', lambda: 'a dump that was cut short is shown as complete: %.500r' % (g,))
    w.ctx.log('read', name, how, acc, len(got), type(err).__name__)
    w.ctx.state('read', how, acc % 7, len(got), first == len(segs), fault and fault[0])
    err = g = st = None
    gc.collect()
    need(not w.fs.open_now, 'handle', 'a file remains open')


def access(w, st, acc, k, want):
    """read a Stat in one of several ways"""
    x = want[k] if k is not None else None
    a = acc % 7
    if x is not None and not w.plan:
        n = len(x['rows'])
        if a == 1 and n:
            i = acc // 7 % n
            r = st.get_row(i)
            need([r.count, r.size, r.name, r.index, r.cumulsize] == x['rows'][i], 'row', lambda: 'row %d' % i)
        elif a == 2 and n:
            i = -1 - acc // 7 % n
            y = fp(st[i])
            need([r[:3] for r in y['rows']] == [x['rows'][i][:3]], 'row', lambda: 'row %d' % i)
            need(y['timemade'] == x['timemade'], 'row', 'time')
        elif a == 3:
            names = []
            for r in x['rows'][acc // 7 % 3::2]:
                if r[2] not in names:
                    names.append(r[2])
            names = names[::-1] + ['no such kind']
            rs = st.get_rows_of_kinds(names)
            first = {}
            for r in x['rows']:
                first.setdefault(r[2], []).append(r)
            for nm, r in zip(names, rs):
                need((r is None) == (nm not in first), 'kinds', lambda: 'row of kind %r: %r' % (nm, r))
                if r is not None:
                    need([r.count, r.size, r.name, r.index, r.cumulsize] in first[nm], 'kinds', 'row of kind')
        elif a == 4 and x['format'] != 'DiffFormat':
            N = acc // 7 % 6
            by = 'Size' if acc % 2 else 'Count'
            rs = st.get_rows_n_and_other(N, by)
            need(sum(r.size for r in rs) == x['size'] and sum(r.count for r in rs) == x['count'], 'other', 'the rows and <Other> do not add up')
            need(len([r for r in rs if r.name == '<Other>']) >= (1 if N < n else 0) and len(rs) <= N + 1, 'other', 'number of rows')
            key = 1 if by == 'Size' else 0
            rows = x['rows'] if by == 'Size' else sorted(x['rows'], key=lambda r: -r[0])
            need([r[2] for r in rows[:N]] == [r.name for r in rs if r.index is not None], 'other', 'the largest rows')
        elif a == 5:
            s = Stream()
            st.dump(s)
            b = ''.join(s.parts).encode()
            it = io.StringIO(b.decode())
            same('dump of what was loaded', fp(hp.load(it)), x)
            need(not it.read(), 'redump', 'dumping what was loaded writes more than one dump')
        elif a == 6:
            y = fp(st - st)
            checkdiff(y, x, x)
    return fp(st)


def run(plan, ctx):
    w = W(ctx, plan['cfg'])
    for m in mods:
        m.open = w.fs.open
    share = Part.__dict__['_share']
    share.data['time'] = w.clock
    Part.__dict__['time'] = w.clock
    try:
        for op in plan['ops']:
            ctx.step()
            if op[0] == 'mk':
                do_mk(w, op)
            elif op[0] == 'dump':
                do_dump(w, op)
            elif op[0] == 'read':
                do_read(w, op)
            elif op[0] == 'rm':
                if w.files.pop(w.name(op[1]), None) is not None:
                    w.fs.names.pop(w.name(op[1]), None)
            else:
                raise HarnessError(op[0])
        for k in range(len(FILES)):
            for how in range(7):
                do_read(w, ['read', k, how, 0, None])
        ctx.simtime += w.clock.t - 1e9 - plan['cfg']['t']
    finally:
        for m in mods:
            m.__dict__.pop('open', None)


# ---------------------------------------------------------------------------

def genspec(rng):
    n = rng.choice([0, 0, 1, 2, 3, 5, 11, 25, 60])
    fmt = rng.choice([0, 0, 0, 1, 2])
    names = rng.choice([5, 30, 200])
    rows = []
    for _ in range(n):
        s = rng.choice([0, 1, 56, rng.randrange(1000), rng.randrange(1 << 40)])
        c = rng.choice([1, 2, rng.randrange(1000)])
        if fmt == 2 and rng.random() < .5:
            s, c = -s, -c
        rows.append([c, s, rng.randrange(names)])
    if fmt != 2:
        rows.sort(key=lambda r: -r[1])
    return [fmt, rows, rng.randrange(60), [rng.choice([0, rng.randrange(5000)]), rng.choice([0, rng.randrange(1 << 30)])]]


def genfault(rng, wr):
    if rng.random() < (.45 if wr else .8):
        return None
    at = rng.choice([0, rng.randrange(1, 40), rng.randrange(200), rng.randrange(400), rng.randrange(3000)])
    if wr:
        return [rng.choice(['enospc', 'crash', 'crash', 'eio', 'short', 'cio', 'oio']), at]
    return [rng.choice(['rio', 'oio']), rng.randrange(6)]


def gen(rng, tier):
    cfg = dict(readmax=rng.choice([0, 0, 1, 7, 64]), bufsize=rng.choice([0, 0, 1, 16, 100]), t=rng.randrange(10 ** 6))
    ops = []
    for _ in range(rng.choice([1, 2, 4])):
        ops.append(['mk', rng.choice([0, 0, 1]), rng.randrange(60), rng.randrange(60), genspec(rng)])
    nf = rng.choice([1, 1, 3])
    for _ in range(rng.choice([3, 6, 12, 20])):
        k = rng.choices(['mk', 'dump', 'read', 'rm'], [3, 8, 8, .3])[0]
        if k == 'mk':
            ops.append(['mk', rng.randrange(4), rng.randrange(60), rng.randrange(60), genspec(rng)])
        elif k == 'dump':
            ops.append(['dump', rng.randrange(60), rng.randrange(nf), rng.choice([0, 0, 0, 1, 2, 3]), genfault(rng, True)])
        elif k == 'read':
            ops.append(['read', rng.randrange(nf), rng.randrange(7), rng.choice([0, rng.randrange(500)]), genfault(rng, False)])
        else:
            ops.append(['rm', rng.randrange(nf)])
    return dict(cfg=cfg, ops=ops)
