"""C15: reports read page by page in any order, several at a time, with changes
of the page length and interrupted or failing pages in between."""
import gc, sys, signal, types
import simrt, interp, simfs, graphworld as gw
import prop_c10 as c10
import prop_c12 as c12
from simctx import Violation, HarnessError, need

ERS = ['Type', 'Id', 'Size', 'Clodo', 'Unity', 'Module', 'Rcs']
MAXES = [1, 2, 3, 4, 5, 7, 10, 11, 50, None]
BIG = 60                        # no more rows than this in a report of patterns or paths


class Fail(Exception):
    pass


def setup():
    global hp, V, Use, Part, OH, mods
    from guppy import hpy
    gc.collect()
    gc.disable()
    hp = hpy()
    V, Part, OH, Use = hp.View, hp._parent.Part, hp._parent.OutputHandling, hp
    gw.basics()
    V.root = H = [[{}, [[]], (1, 2)], 'root']
    for s in (hp.idset([1, [], 'a']), hp.iso(H[0][1])):
        for er in ERS:
            str(s.by(er)), str(s.by(er).more), str(s.by(er).stat)
    x = hp.iso(H[0][1][0])
    str(x.shpaths), str(x.rp), str(x.rp.paths('_')), str(x.referrers)
    V.root = V.heapyc.RootState
    import guppy.heapy.Use as U
    mods = [U]
    gc.collect()
    interp.setup()
    M = sys.monitoring
    M.use_tool_id(4, 'raise')
    M.register_callback(4, M.events.RAISE, c12.on_raise)
    signal.signal(signal.SIGINT, c12.on_sigint)


# -- the model ---------------------------------------------------------------

class Node:
    """A page. ends: where it ended when it was last shown (None: not yet);
    more than one when an interrupt leaves that open"""

    def __init__(self, rep, obj, prev):
        self.rep, self.obj, self.prev = rep, obj, prev
        self.ends = {None}
        self.used = False


def model(rep, start, mx, head):
    """-> list of possible texts, where the page ends"""
    L = rep.lines
    out = []
    if head and rep.label is not None:
        out.append(rep.label)
    if start >= len(L):
        e = rep.emptymsg
        if e is not None:
            out.append(e)
        return [('\n'.join(out)).rstrip()], start
    if rep.header is not None:
        out.append(rep.header)
    k = start
    while k < len(L):
        if mx is not None and k - start >= mx and k + 1 < len(L) and (not rep.told or L[k - 1][1]):
            return [('\n'.join(out + [m])).rstrip() for m in rep.moremsg(start, k)], k
        out.append(L[k][0])
        k += 1
    return ['\n'.join(out).rstrip()], k


def ends_of(node):
    """where the page ended, when it is to be shown now if it never was"""
    res = set()
    for e in node.ends:
        if e is None:
            for s in starts_of(node):
                res.add(model(node.rep, s, node.rep.mx(node), True)[1])
        else:
            res.add(e)
    return res


def starts_of(node):
    return {0} if node.prev is None else ends_of(node.prev)


def settle(node):
    """the pages before it have been looked at now"""
    if node.prev is not None and None in node.prev.ends:
        node.prev.ends = ends_of(node.prev)
        settle(node.prev)


# -- reports -------------------------------------------------------------------

class Report:
    told = False
    emptymsg = None

    def __init__(self, w, make):
        """make(): the report; made twice, one is read at once"""
        self.w = w
        t = make()
        pr = self.printer(t)
        self.lines = []
        for li in pr.get_line_iter():
            self.lines.append((li[1], True) if isinstance(li, tuple) else (li, False))
        self.label, self.header = pr.get_label(), pr.get_row_header()
        self.total = repr(self.allof(t))
        w.cur = None
        self.obj = make()
        self.top = Node(self, self.obj, None)
        self.nodes = [self.top]

    def printer(self, o):
        return o.printer

    def allof(self, o):
        return o.all

    def mx(self, node):
        return self.printer(self.obj).max_more_lines

    def setmx(self, n):
        self.printer(self.obj).max_more_lines = n

    def moremsg(self, s, e):
        # s: first, e: after the last one shown
        return ["<Lines %d..%d. Type e.g. '_.more' for more.>" % (s, e - 1)]


def flat(s):
    return ''.join(s.split())


def pct(a, b):
    return a * 100.0 / b if b else 0.0


class StatReport(Report):
    def __init__(self, w, make, fmt, rows, b=None):
        self.fmt, self.rows, self.b = fmt, rows, b
        Report.__init__(self, w, make)
        if rows is not None:
            self.check()

    def check(self):
        need(len(self.rows) == len(self.lines), 'rows', lambda: '%d rows in %d lines' % (len(self.rows), len(self.lines)))
        C = sum(r[0] for r in self.rows)
        S = sum(r[1] for r in self.rows)
        for (c, s, n, i, cum), (text, _) in zip(self.rows, self.lines):
            if self.fmt == 'SetFormat':
                want = '%d %d %.0f %d %.0f %d %.0f' % (i, c, pct(c, C), s, pct(s, S), cum, pct(cum, S))
            elif self.fmt == 'IdFormat':
                want = '%d %d %.1f %d %.1f' % (i, s, pct(s, S), cum, pct(cum, S))
            else:
                want = '%d %d %d %d %s' % (i, c, s, cum, '%.3g' % (cum * 100. / self.b[1]) if self.b[1] else '(n.a.)')
            need(flat(text) == flat(want + n), 'row', lambda: 'row %d %r is shown as\n%s' % (i, (c, s, n, cum), text))

    def moremsg(self, s, e):
        return ["<%d more rows. Type e.g. '_.more' to view.>" % (len(self.lines) - e)]


class SetReport(StatReport):
    """a set as such: pages of its partition"""

    def printer(self, o):
        return o.more._oh_printer


class PathsReport(Report):
    @property
    def emptymsg(self):
        return '<No more paths>' if self.lines else None

    def setmx(self, n):
        self.obj.maxpaths = n

    def moremsg(self, s, e):
        return ['<... %d more paths ...>' % (len(self.lines) - e)]


class PatReport(Report):
    def moremsg(self, s, e):
        return ["<Type e.g. '_.more' for more.>", "<%d more lines. Type e.g. '_.more' for more.>" % (len(self.lines) - e)]


class RpPathsReport(Report):
    def __init__(self, w, make, variant):
        self.told = variant >= 2
        Report.__init__(self, w, make)

    def moremsg(self, s, e):
        return ["<Type e.g. '_.more' for more.>"]


class Client:
    """a report of our own; the k-th line it is asked for fails"""
    _hiding_tag_ = None
    numrows = 7

    def __init__(self, w, n, opts):
        self.w, self.n, self.opts = w, n, opts

    def __len__(self):
        return self.n + 3

    def _oh_get_line_iter(self):
        for i in range(self.n):
            self.w.produce()
            s = 'line %d' % i if i % 4 else 'line %d\n  and more of it' % i
            yield ('STOP_AFTER', s) if (self.opts >> (i % 8)) & 1 else s


class GenReport(Report):
    def __init__(self, w, n, opts, kw):
        self.kw = kw
        self.told = bool(kw & 1)
        self.n = n
        if kw & 4:
            self.emptymsg = '<nothing>'

        def make():
            c = Client(w, n, opts)
            d = {}
            if kw & 2:
                d['get_num_lines'] = lambda: n
            if kw & 4:
                d['get_empty_msg'] = lambda: '<nothing>'
            if kw & 8:
                d['get_label'] = lambda: 'Label\nof two lines'
            if kw & 16:
                d['get_row_header'] = lambda: 'Header'
            if kw & 32:
                d['max_more_lines'] = 4
            OH.setup_printing(c, stop_only_when_told=self.told, **d)
            return c
        Report.__init__(self, w, make)

    def moremsg(self, s, e):
        of = ' of %d' % self.n if self.kw & 2 else ''
        return ["<Lines %d..%d%s. Type e.g. '_.more' for more.>" % (s, e - 1, of)]


# ---------------------------------------------------------------------------

class W(gw.GW):
    def __init__(self, ctx, cfg):
        gw.GW.__init__(self, ctx, V, hp, cfg)
        self.H = [self.R, 'root']
        V.root = self.H
        self.fs = simfs.FS()
        self.fs.hook = self.hook
        self.reps = []
        self.keep = []
        self.at = None          # the production of a line that fails
        self.failed = False

    def hook(self, what, h, n):
        if what == 'read':
            self.produce(OSError)

    def produce(self, E=Fail):
        if self.at is not None:
            self.at -= 1
            if self.at <= 0:
                self.at = None
                self.failed = True
                raise E(5, 'simulated')


def build(w, op):
    _, kind, i, j, k, spec = op
    if kind in ('stat', 'file'):
        tr, rows = c10.synthetic(spec, 1e9 + k)
        if kind == 'file':
            name = 'f%d' % len(w.reps)
            h = w.fs.open(name, 'w')
            tr.append('.end: .loader: _load_stat')
            for l in tr:
                h.write(l + '\n')
            h.close()
            make = lambda: hp.load(name)
        else:
            make = lambda: hp.load(tr)
        return StatReport(w, make, c10.FORMATS[spec[0]], rows, spec[3])
    if kind in ('set', 'part', 'dstat'):
        obs = c10.objects(w, i, j) + [o for o in w.nodes()[:i % 17]]
        w.keep.append(obs)
        er = ERS[k % len(ERS)]
        make = lambda: hp.idset(obs).by(er)
        if kind == 'part':
            f = lambda: make().partition
        elif kind == 'dstat':
            f = lambda: make().stat
        else:
            f = make
        p = make().partition
        rows = [[r.count, r.size, r.name, r.index, r.cumulsize] for r in p.get_rows()]
        if kind == 'dstat':
            rows = [[c, s, c10.clean(n), x, cum] for c, s, n, x, cum in rows]
        cum = 0
        for x, r in enumerate(rows):
            cum += r[1]
            need(r[3] == x and r[4] == cum, 'rows', lambda: 'row %d has index %d and cumulative size %d' % (x, r[3], r[4]))
        return (SetReport if kind == 'set' else StatReport)(w, f, type(p.format).__name__, rows)
    if kind == 'gen':
        return GenReport(w, i, j, k)
    ns = w.nodes()
    o = ns[i % len(ns)]
    s = hp.iso(o, ns[j % len(ns)]) if k & 1 else hp.iso(o)
    if kind == 'paths':
        if s.shpaths.numpaths > BIG:
            return None
        return PathsReport(w, lambda: s.shpaths)
    V.update_referrers(s.nodes)
    if sum(1 for _, _ in zip(range(BIG + 1), s.get_rp(depth=3))) > BIG:
        return None
    if kind == 'rp':
        return PatReport(w, lambda: s.get_rp(depth=3, er=getattr(hp, ERS[(k >> 1) % len(ERS)])))
    if kind == 'rppaths':
        rp = s.get_rp(depth=3)
        keys = [r.ixlstr for r in rp.iterlines()]
        key = keys[j % len(keys)]
        n = sum(1 for _, _ in zip(range(BIG * 3), rp.paths(key).printer.get_line_iter()))
        if n >= BIG * 3:
            return None
        v = 1 + k % 2
        return RpPathsReport(w, lambda: s.get_rp(depth=3).paths(key, variant=v), v)
    raise HarnessError(kind)


def show(w, rep, node, how):
    """-> text"""
    o = node.obj
    if how == 'all':
        return repr(rep.allof(o))
    return repr(o) if how == 'repr' else str(o)


def do_show(w, op):
    _, ri, ni, how, fault = op
    rep = w.reps[ri % len(w.reps)]
    node = rep.nodes[ni % len(rep.nodes)]
    if how == 'str' and not (node.prev is None and isinstance(rep, SetReport)):
        how = 'repr'
    w.failed = False
    f = lambda: show(w, rep, node, how)
    mx = None if how == 'all' else rep.mx(node)
    head = how == 'all' or node.prev is None
    starts = {0} if how == 'all' else starts_of(node)
    exc, text, fired = faulty(w, f, fault)
    if exc is not None:
        # whether the pages on the way count as shown is not known
        n = node
        while n is not None:
            if how != 'all':
                n.ends = n.ends | {model(rep, s, rep.mx(n), True)[1] for s in starts_of(n)}
            n = n.prev
        w.ctx.log('show', ri, ni, how, exc)
        w.ctx.state('interrupted', type(rep).__name__, how, exc)
        return
    cand = []
    for s in sorted(starts):
        t, e = model(rep, s, mx, head)
        if text in t:
            cand.append((s, e))
    if not cand:
        t = [model(rep, s, mx, head)[0][-1] for s in sorted(starts)]
        raise Violation('page:' + type(rep).__name__, 'page %d of %d lines, at most %s at a time, starting at %s, is shown as\n%.1500s\nbut should be\n%.1500s'
                        % (ni % len(rep.nodes), len(rep.lines), mx, sorted(starts), text, '\nor '.join(t)))
    if how != 'all':
        settle(node)
        node.ends = {e for s, e in cand}
        if node.prev is not None:
            node.prev.ends = {s for s, e in cand}
    else:
        need(text == rep.total, 'all', lambda: 'all of it is shown as\n%.1500s\nbut was\n%.1500s' % (text, rep.total))
    w.ctx.log('show', ri, ni, how, sorted(node.ends, key=lambda e: -1 if e is None else e), mx, len(text))
    s, e = cand[0]
    w.ctx.state('show', type(rep).__name__, how, node.prev is not None, min(e - s, 12), e == len(rep.lines), mx)


def faulty(w, f, fault):
    """-> name of the exception, text, whether the fault came"""
    if fault is None:
        return None, f(), False
    kind, at = fault
    fired = False
    exc = text = None
    unr = w.unr
    del unr[:], c12.MASKED[:]
    try:
        try:
            if kind == 'int':
                interp.arm(interp.SIGINT, at, 0)
                text = f()
            elif kind == 'sig':
                text = simrt.call(f, (), None, 0, 0, at)
            else:
                w.at = at
                text = f()
            for _ in range(3):
                pass
        finally:
            if kind == 'int':
                fired = interp.disarm() >= at
            elif kind == 'sig':
                fired = simrt.last()[2] > 0
            else:
                w.at = None
                fired = w.failed
    except KeyboardInterrupt:
        exc = 'interrupt'
    except (Fail, OSError) as e:
        exc = 'fail'
    except BaseException as e:
        if fired:
            raise Violation('other-exception', 'interrupted, it raised %s: %.200s' % (type(e).__name__, e)) from e
        raise
    if fired:
        w.ctx.fault({'int': 'interrupt', 'sig': 'signal_in_C', 'fail': 'failing_row'}[kind])
    want = None if not fired else 'fail' if kind == 'fail' else 'interrupt'
    if want != exc and not (exc is None and (unr or c12.MASKED)):
        raise Violation('swallowed', 'a page was interrupted (%s), but %s was raised' % (want, exc))
    if exc is not None:
        text = None
    return exc, text, fired


def do_more(w, op):
    _, ri, ni, fault = op
    rep = w.reps[ri % len(w.reps)]
    k = ni % len(rep.nodes)
    node = rep.nodes[k]
    exc, m, fired = faulty(w, lambda: node.obj.more, fault)
    if exc is not None:
        n = node
        while n is not None:
            n.ends = n.ends | ends_of(n)
            n = n.prev
        w.ctx.log('more', ri, ni, exc)
        return
    need(m.top is rep.obj, 'top', 'top of a page is not the report')
    need(m.prev is node.obj, 'prev', lambda: 'the page before the one after %s is %s' % (type(node.obj).__name__, type(m.prev).__name__))
    rep.nodes.append(next((x for x in rep.nodes if x.obj is m), None) or Node(rep, m, node))
    w.ctx.log('more', ri, k)


def do_attr(w, op):
    _, ri, ni = op
    rep = w.reps[ri % len(w.reps)]
    node = rep.nodes[ni % len(rep.nodes)]
    a = rep.allof(node.obj)
    for a in (node.obj, rep.allof(node.obj)):
        for name in ('count', 'size', 'numrows', 'kindheader', 'numpaths', 'n'):
            x = getattr(rep.obj, name, None)
            need(getattr(a, name, None) == x, 'attribute', lambda: '%s of a page is %r but of the report it is %r' % (name, getattr(a, name, None), x))
        if isinstance(rep, (StatReport, GenReport)) and type(rep.obj).__name__ != 'IdentityPartition' and hasattr(type(rep.obj), '__len__'):
            need(len(a) == len(rep.obj), 'attribute', 'len')
    w.ctx.log('attr', ri, ni)


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = W(ctx, cfg)
    w.unr = []
    sys.unraisablehook = lambda u: w.unr.append(u.exc_type)
    for m in mods:
        m.open = w.fs.open
    OH.max_more_lines = 10
    try:
        for op in plan['ops']:
            ctx.step()
            if op[0] == 'report':
                w.ctx.log(*op[:5])
                r = build(w, op)
                if r is not None:
                    w.reps.append(r)
                    ctx.log(type(r).__name__, len(r.lines))
            elif op[0] == 'modmax':
                OH.max_more_lines = op[1]
                ctx.log(*op)
            elif op[0] in ('show', 'more', 'max', 'attr'):
                if not w.reps:
                    continue
                if op[0] == 'show':
                    do_show(w, op)
                elif op[0] == 'more':
                    do_more(w, op)
                elif op[0] == 'attr':
                    do_attr(w, op)
                else:
                    w.reps[op[1] % len(w.reps)].setmx(op[2])
                    ctx.log(*op)
            elif w.reps:
                continue            # what is reported stays as it is
            elif w.do(op):
                ctx.log(*op)
            else:
                raise HarnessError(repr(op))
        # read each of them to the end
        for ri, rep in enumerate(w.reps):
            for ni in range(len(rep.nodes)):
                do_show(w, ['show', ri, ni, 'repr', None])
            do_show(w, ['show', ri, 0, 'repr', None])
            node, rows = rep.top, []
            for _ in range(len(rep.lines) + 3):
                do_show(w, ['show', ri, rep.nodes.index(node), 'repr', None])
                if list(node.ends)[0] >= len(rep.lines):
                    break
                do_more(w, ['more', ri, rep.nodes.index(node), None])
                need(rep.nodes[-1] is not node, 'more', 'a page is the one after itself')
                node = rep.nodes[-1]
            need(list(node.ends)[0] == len(rep.lines), 'complete', 'the last page is not at the end')
            do_show(w, ['show', ri, 0, 'all', None])
    finally:
        OH.max_more_lines = 10
        for m in mods:
            m.__dict__.pop('open', None)
    simrt.check()


# ---------------------------------------------------------------------------

def gen(rng, tier):
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), deep=rng.choice([3, 20]))
    wts, kinds = gw.swarm(rng, dict(gw.WEIGHTS))
    kinds = [k for k in kinds if k not in ('set', 'frozenset', 'nodeset', 'nodegraph', 'frame')] or ['list']
    ops = list(gw.genops(rng, rng.choice([2, 4, 8, 16, 30]), kinds, wts, False))
    kk = rng.sample(['stat', 'file', 'set', 'part', 'dstat', 'gen', 'paths', 'rp', 'rppaths'], rng.choice([1, 2, 4]))
    nrep = rng.choice([1, 1, 2, 3])
    reps = []
    for _ in range(nrep):
        kind = rng.choice(kk)
        spec = c10.genspec(rng) if kind in ('stat', 'file') else None
        i = rng.choice([0, 1, 2, 9, 10, 11, 12, rng.randrange(40)]) if kind == 'gen' else rng.randrange(60)
        reps.append(['report', kind, i, rng.randrange(256), rng.randrange(64), spec])
    ops.append(reps[0])
    late = reps[1:]
    for _ in range(rng.choice([3, 6, 12, 25])):
        x = rng.random()
        ri = rng.randrange(nrep)
        ni = rng.choice([0, -1, -1, -1, -2, rng.randrange(8)])
        fault = None
        if rng.random() < .3:
            fk = rng.choice(["int", "int", "sig", "fail", "fail"])
            fault = [fk, rng.choice([rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(1, 400)]) if fk != 'fail' else rng.choice([1, 1, 2, rng.randrange(1, 12)])]
        if x < .5:
            ops.append(['show', ri, ni, rng.choice(['repr'] * 6 + ['str', 'all']), fault])
        elif x < .8:
            ops.append(['more', ri, ni, None if rng.random() < .8 else fault])
        elif x < .9:
            ops.append(['max', ri, rng.choice(MAXES)])
        elif x < .93:
            ops.append(['attr', ri, ni])
        elif x < .96:
            ops.append(['modmax', rng.choice(MAXES[:-1])])
        if late and rng.random() < .4:
            ops.append(late.pop())
    return dict(cfg=cfg, ops=ops)
