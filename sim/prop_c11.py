"""C11: a profile browser that polls a file another process appends to, over a
simulated file system, a simulated screen and simulated timers."""
import gc, errno, types, hashlib, time, sys, traceback
import simfs, faketk
from simctx import Violation, HarnessError, need

ARENA = False
FILES = ['f0', 'f1']
GRAPHS = ['Bars Size', 'Bars Count', 'Lines Size', 'Lines Count']


def setup():
    global hp, P, D, tk
    import prop_c10 as D
    D.setup()
    hp = D.hp
    faketk.install()
    tk = faketk.app
    import guppy.heapy.Prof as P


class W:
    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.fs = fs = simfs.FS()
        fs.readmax = cfg['readmax'] or None
        fs.hook = self.hook
        self.inj = []
        self.ncall = 0
        self.wrote = self.failed = False
        self.series = {f: [] for f in FILES}     # name -> [(bytes, rows, count, size, time)] that the writer writes to it
        self.t = 1e9 + cfg['t']
        self.cfg = cfg
        self.name = None
        self.shown = []
        tk.reset()
        P.open = fs.open
        mod = types.SimpleNamespace(os=simfs.OS(fs), hashlib=hashlib, time=time, Use=hp,
                                    path=types.SimpleNamespace(abspath=lambda x: x, dirname=lambda x: '/'),
                                    _root=types.SimpleNamespace(sys=sys, traceback=traceback))
        self.app = P.ProfileApp(mod)
        self.b = None

    # -- the writer -----------------------------------------------------------
    def hook(self, what, h, n):
        if what == 'written':
            return
        self.ctx.step()
        self.ncall += 1
        for k, x in self.inj:
            if k == self.ncall:
                if x == 'eio':
                    if what in ('read', 'open', 'stat', 'fstat'):
                        self.ctx.fault('read_error')
                        self.failed = True
                        raise self.fs.error(errno.EIO)
                elif self.name:
                    self.ctx.fault('write_during_poll')
                    self.write(self.name, x)

    def sample(self, name, spec):
        self.t += 1.25
        spec = [0] + spec[1:]
        tr, rows = D.synthetic(spec, self.t)
        data = ('\n'.join(tr) + '\n.end: .loader: _load_stat\n').encode()
        self.series[name].append((data, [r[:3] for r in rows], self.t))

    def write(self, name, k):
        """up to k more bytes; the file is created if it is not there"""
        want = b''.join(s[0] for s in self.series[name])
        node = self.fs.names.get(name)
        if node is None:
            # the writer starts again with what is still to be written
            node = self.fs.names[name] = simfs.Inode(self.fs)
        have = len(node.data)
        if have < len(want):
            self.fs.t += 1e-3
            node.data.extend(want[have:have + k])
            node.mtime = self.fs.now()
            self.wrote = True

    def complete(self, name):
        """samples completely written"""
        node = self.fs.names.get(name)
        if node is None:
            return None
        n = k = 0
        for s in self.series[name]:
            n += len(s[0])
            if n > len(node.data):
                break
            k += 1
        return k

    def cut(self, name, k):
        """what is left when a file is emptied or made anew with k samples to come"""
        self.series[name] = self.series[name][:k]

    # -- the reader -------------------------------------------------------------
    def view(self):
        return [[[r.count, r.size, r.name] for r in st.get_rows()] + [st.count, st.size, st.numrows, st.timemade] for st in self.b.stats]

    def expected(self, s):
        return list(s[1]) + [sum(r[0] for r in s[1]), sum(r[1] for r in s[1]), len(s[1]), s[2]]

    def check(self, exact):
        """what is shown, after a poll"""
        b = self.b
        if self.name is None:
            need(len(b.stats) == 0, 'shown', 'samples without a file')
            return
        if self.complete(self.name) is None or self.failed:
            self.ctx.probe('failed_poll')
            if 'stats' not in b.stats.__dict__:
                return      # nothing can be shown
            got = self.view()
            need(self.shown in (None, got), 'failed', lambda: 'a poll that failed changed what is shown: %d samples, %d before' % (len(got), len(self.shown)))
            if self.shown is None:
                return
        else:
            c = self.complete(self.name)
            got = self.view()
            want = [self.expected(s) for s in self.series[self.name][:c]]
            for k, (g, x) in enumerate(zip(got, want)):
                need(g == x, 'sample', lambda: 'sample %d is shown as %.400r but is %.400r' % (k, g, x))
            need(len(got) <= c, 'extra', lambda: '%d samples are shown, %d were written' % (len(got), c))
            if exact:
                need(len(got) == c, 'missing', lambda: '%d samples are shown, %d were written' % (len(got), c))
            self.shown = got
        need(len(b.stats) == len(got), 'length', lambda: 'len() is %d of %d' % (len(b.stats), len(got)))
        need(b.stats.get_max_size() == max([g[-3] for g in got], default=0), 'max_size', 'get_max_size()')
        self.screen(got)

    def screen(self, got):
        b = self.b
        d = b.display
        need(d.numstats == len(got), 'display', lambda: 'the display has %d samples of %d' % (d.numstats, len(got)))
        for c in b.mcontrols:
            need(c.numsamples == len(got), 'display', lambda: 'the control has %d samples of %d' % (c.numsamples, len(got)))
            need(0 <= c.sample < max(1, len(got)), 'display', 'a marker is outside')
            if c.trackingvar.get():
                need(c.sample == max(0, len(got) - 1), 'tracking', lambda: 'a tracking marker is at %d of %d' % (c.sample, len(got)))
        kind, what = self.graph.split()
        if kind == 'Bars':
            C = d.drawingarea
            cols = {}
            for i in C.find('a'):
                x0, y0, x1, y1 = C.items[i][1]
                k = ((x0 + x1) / 2 - d.canx0) / d.xscale
                need(abs(k - round(k)) < .01, 'graph', 'a bar between samples')
                cols.setdefault(round(k), []).append((y0 - y1) / d.yscale)
            for k in range(len(got)):
                x = got[k][-3 if what == 'Size' else -4]
                y = sum(cols.pop(k, []))
                need(abs(x - y) <= 1e-6 * max(1, abs(x)), 'graph', lambda: 'bar %d has height %r, should be %r' % (k, y, x))
            need(not cols, 'graph', lambda: 'bars for samples %r' % (sorted(cols),))
        t = b.tf
        old = t.tothead.text, t.rowhead.text, t.text.text
        t.update(force=1)
        new = t.tothead.text, t.rowhead.text, t.text.text
        need(old == new, 'table', lambda: 'the table shows\n%s%s\nbut should\n%s%s' % (old[0], old[2], new[0], new[2]))
        if got:
            k = b.mcontrols[0].sample
            need('%d at %s' % (k, time.asctime(time.localtime(got[k][-1]))) in new[0], 'table', lambda: 'the head of the table is %r' % new[0])


def run(plan, ctx):
    cfg = plan['cfg']
    w = W(ctx, cfg)
    fs = w.fs
    w.graph = GRAPHS[0]
    try:
        for spec in cfg['first']:
            w.sample('f0', spec)
        w.write('f0', cfg['k'])
        fs.ncalls = 0
        w.name = 'f0'
        w.b = b = w.app.new_profile_browser('f0')
        need(not tk.boxes, 'box', lambda: 'opening: %s' % tk.boxes[-1:])
        tk.run(0)
        w.check(True)
        if cfg['collect']:
            b.collecting.set(1)
            b.cmd_collect()
        for op in plan['ops']:
            ctx.step()
            do(w, b, op)
        # the writer finishes, the reader polls again
        if w.name:
            w.write(w.name, 1 << 40)
        if not b.collecting.get():
            b.collecting.set(1)
            b.cmd_collect()
        w.inj = []
        w.failed = False
        if 'stats' not in b.stats.__dict__ and w.name:
            ctx.probe('reopened')
        tk.run(1000)
        w.check(True)
        need(len(tk.timers) == 1, 'timers', lambda: '%d timers for one browser' % len(tk.timers))
        ctx.simtime += tk.now / 1000
    finally:
        P.__dict__.pop('open', None)
        tk.reset()


def do(w, b, op):
    k = op[0]
    fs = w.fs
    ctx = w.ctx
    if k == 's':
        w.sample(FILES[op[1]], op[2])
    elif k == 'w':
        w.write(FILES[op[1]], op[2])
    elif k == 'poll':
        fs.t += .01
        w.inj = op[2]
        w.ncall = 0
        w.wrote = w.failed = False
        tk.run(op[1])
        w.inj = []
        polled = w.ncall > 0
        ctx.log('poll', w.name, w.ncall, w.wrote, w.failed, len(w.b.stats) if 'stats' in b.stats.__dict__ else None)
        ctx.state('poll', min(w.ncall, 9), w.wrote, w.failed, 'stats' in b.stats.__dict__, w.complete(w.name) if w.name else None)
        if polled:
            w.check(not w.wrote and b.collecting.get())
        w.failed = False
    elif k == 'cc':
        ctx.log('cc')
        b.cmd_clear_cache()
        w.shown = None
    elif k == 'graph':
        if w.name is None or w.complete(w.name) is not None:
            w.graph = GRAPHS[op[1]]
            b.graphtypevar.set(w.graph)
            b.cmd_graphtype()
    elif k == 'collect':
        v = 0 if b.collecting.get() else 1
        b.collecting.set(v)
        w.failed = w.wrote = False
        b.cmd_collect()
        tk.run(0)
        need(bool(tk.timers) == bool(v), 'timers', 'collecting')
        if v:
            w.check(True)
    elif k == 'open':
        # another file is opened in the same window
        name = FILES[op[1]] if op[1] < 2 else None
        n = len(tk.boxes)
        b.load_filename(name)
        if name and w.complete(name) is None:
            ctx.fault('missing_file')
            need(len(tk.boxes) == n + 1, 'box', 'opening a file that is not there')
        else:
            need(len(tk.boxes) == n, 'box', lambda: 'opening: %s' % tk.boxes[-1:])
            w.name = name
            w.failed = False
            w.check(True)
        ctx.log('open', name)
    elif k in ('trunc', 'repl', 'rm'):
        name = FILES[op[1]]
        node = fs.names.get(name)
        if node is None:
            return
        fs.t += op[3]
        ctx.fault({'trunc': 'file_truncated', 'repl': 'file_replaced', 'rm': 'file_removed'}[k])
        if k == 'trunc':
            n = min(op[2], w.complete(name))
            w.cut(name, n)
            del node.data[sum(len(s[0]) for s in w.series[name]):]
            node.mtime = fs.now()
        else:
            del fs.names[name]
            if k == 'repl':
                w.series[name] = []
                for s in op[4]:
                    w.sample(name, s)
                new = fs.names[name] = simfs.Inode(fs)
                if op[5]:
                    new.ino = node.ino
                w.write(name, op[6])
            else:
                w.cut(name, op[2])
        ctx.log(k, name, len(w.series[name]))
    elif k == 'mark':
        c = b.mcontrols[op[1]]
        if c.numsamples and ('stats' in b.stats.__dict__ or w.name is None or w.complete(w.name) is not None):
            c.trackingvar.set(False)
            if 'stats' in b.stats.__dict__ or w.complete(w.name):
                c.setmarker(op[2] % c.numsamples)
    elif k == 'track':
        c = b.mcontrols[op[1]]
        c.trackingvar.set(not c.trackingvar.get())
        if 'stats' in b.stats.__dict__:
            c.settracking()
        else:
            c.trackingvar.set(not c.trackingvar.get())
    else:
        raise HarnessError(k)


# ---------------------------------------------------------------------------

def genspec(rng):
    n = rng.choice([0, 1, 2, 3, 12])
    names = rng.choice([3, 30])
    rows = []
    for _ in range(n):
        rows.append([rng.choice([1, rng.randrange(1000)]), rng.choice([0, 56, rng.randrange(10 ** 6)]), rng.randrange(names)])
    rows.sort(key=lambda r: -r[1])
    rows = [r for i, r in enumerate(rows) if r[2] != 23 and r[2] not in [q[2] for q in rows[:i]]]      # a graph has one bar per name
    return [0, rows, rng.randrange(60), [0, 0]]


def nbytes(rng):
    return rng.choice([0, 1, rng.randrange(30), rng.randrange(250), rng.randrange(700), 1 << 40, 1 << 40])


def gen(rng, tier):
    cfg = dict(readmax=rng.choice([0, 0, 0, 64, 300]), t=rng.randrange(10 ** 6), first=[genspec(rng) for _ in range(rng.choice([0, 1, 2, 4]))],
               k=nbytes(rng), collect=int(rng.random() < .9))
    ops = []
    two = rng.random() < .25
    fi = lambda: int(two and rng.random() < .4)
    kinds = ['s', 'w', 'poll', 'cc', 'graph', 'collect', 'open', 'trunc', 'repl', 'rm', 'mark', 'track']
    weights = [6, 6, 8, 1, .5, .2, .8 if two else .1, .8, .8, .3, .7, .5]
    for k in range(3, len(kinds)):
        if rng.random() < .4:
            weights[k] = 0
    for _ in range(rng.choice([5, 10, 20, 35])):
        k = rng.choices(kinds, weights)[0]
        if k == 's':
            ops.append(['s', fi(), genspec(rng)])
        elif k == 'w':
            ops.append(['w', fi(), nbytes(rng)])
        elif k == 'poll':
            inj = []
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                inj.append([rng.randrange(1, 9), nbytes(rng)])
            if rng.random() < .08:
                inj.append([rng.randrange(1, 6), 'eio'])
            ops.append(['poll', rng.choice([1000, 1000, 1000, 300]), inj])
        elif k in ('cc',):
            ops.append([k])
        elif k == 'collect':
            ops.append([k])
        elif k == 'graph':
            ops.append([k, rng.randrange(4)])
        elif k == 'open':
            ops.append([k, rng.choice([0, 1, 1, 2])])
        elif k in ('trunc', 'rm'):
            ops.append([k, fi(), rng.choice([0, 0, 1, 2]), rng.choice([.01, 1.5])])
        elif k == 'repl':
            ops.append([k, fi(), 0, rng.choice([.01, 1.5]), [genspec(rng) for _ in range(rng.randrange(4))], int(rng.random() < .3), nbytes(rng)])
        else:
            ops.append([k, rng.randrange(2), rng.randrange(30)])
    return dict(cfg=cfg, ops=ops)
