"""C17: document runs over a simulated file system: every system call may fail,
write less, or be the last one before a crash."""
import io, os, sys, errno, random, types, posixpath, contextlib, hashlib
import simfs
from simctx import Violation, HarnessError, need

ARENA = False
DIR = '/sim-c17-none'           # does not exist in the real file system
BASE = 'index guide api spec kinds'.split()


class OS(simfs.OS):
    def __init__(self, fs):
        super().__init__(fs)
        self.mode = {}          # inode number -> permissions, when not rw

    def access(self, name, mode, **kw):
        self.fs.syscall('access')
        node = self.fs.names.get(os.fspath(name))
        if node is None:
            return False
        m = self.mode.get(node.ino, 6)
        return not ((mode & os.R_OK and not m & 4) or (mode & os.W_OK and not m & 2))

    def listdir(self, name='.'):
        self.fs.syscall('listdir')
        p = posixpath.join(name, '')
        return [k[len(p):] for k in self.fs.names if k.startswith(p)]

    def copy(self, a, b):
        with self.fs.open(a, 'rb') as f, self.fs.open(b, 'wb') as g:
            g.write(f.read())
        return b

    def link(self, a, b):
        self.fs.syscall('link')
        if b in self.fs.names:
            raise self.fs.error(errno.EEXIST, b)
        self.fs.names[b] = self.fs.names[a]

    def fsync(self, fd):
        self.fs.syscall('fsync')

    def chmod(self, name, m):
        self.mode[self.fs.names[name].ino] = m >> 6 & 7

    def chdir(self, name):
        raise HarnessError('chdir')

    def getcwd(self):
        return DIR

    def makedirs(self, name, *a, **k):
        self.fs.syscall('mkdir')
    mkdir = makedirs

    def rmdir(self, name):
        self.fs.syscall('rmdir')


class FS(simfs.FS):
    os = None

    def open(self, file, mode='r', *a, **k):
        node = self.names.get(os.fspath(file))
        m = 6 if node is None else self.os.mode.get(node.ino, 6)
        if m != 6 and self.hook is not None:
            if ('r' in mode or '+' in mode) and not m & 4 or 'r' not in mode and not m & 2:
                self.syscall('open')
                raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), file)
        return super().open(file, mode, *a, **k)


def setup():
    global guppy, F, time
    import time, guppy
    g = guppy.Root().guppy.gsl
    with contextlib.redirect_stdout(io.StringIO()):
        for m in 'FileIO Filer Main Document Html XHTML Latex Tester DottedTree SpecNodes Text'.split():
            getattr(g, m)
    F = sys.modules['guppy.gsl.FileIO']
    now = time.gmtime(1e9)
    time.localtime = lambda *a: now if not a else time.gmtime(*a)
    # warm up
    for i in range(6):
        docs(None, [document(random.Random(i), 0)], {})


class NS:
    def __init__(self, m, d):
        self.__dict__.update(d)
        self.m_ = m

    def __getattr__(self, a):
        return getattr(self.m_, a)


def session(fs):
    """a session whose files are in fs"""
    r = guppy.Root()
    g = r.guppy.gsl
    fs.os = o = OS(fs)
    real = g.FileIO
    shu = NS(__import__('shutil'), dict(copy=o.copy, copyfile=o.copy, copy2=o.copy, move=o.rename))
    tmp = NS(__import__('tempfile'), dict(mkdtemp=lambda *a, **k: '/sim-tmp'))
    root = NS(r, dict(os=o, tempfile=tmp, shutil=shu))
    mod = NS(real, dict(_root=root))
    g.FileIO.set_IO(F._GLUECLAMP_._get_IO(mod))
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('guppy.gsl.'):
            if m is F or m.__name__.endswith('.Filer'):
                m.open = fs.open
            for k, v in (('os', o), ('shutil', shu)):
                if hasattr(m, k):
                    setattr(m, k, v)
    return g


class W:
    pass


def hook(w):
    def h(what, hd, n):
        if w.fault is None:
            return None
        kind, at, part = w.fault
        if what in ('written', 'renamed'):
            if kind != 'crash':
                return None
        if w.dead and kind == 'full' and what == 'write':
            raise w.fs.error(errno.ENOSPC)
        w.n += 1
        if kind == 'short':
            # some writes take less than was given
            if what == 'write' and n > 1 and not w.n % max(at, 1):
                w.hits += 1
                return max(1, n * part // 100)
            return None
        if w.dead:
            return None
        if kind == 'full':
            if what != 'write':
                return None
            w.room -= n
            if w.room < 0:
                w.dead = True
                w.hits += 1
                if w.room + n > 0:
                    return w.room + n
                raise w.fs.error(errno.ENOSPC)
            return None
        if w.n < at:
            return None
        if kind == 'crash':
            w.dead = True
            w.hits += 1
            if what == 'write' and part and n > 1:
                w.part = True
                w.fault = ['crash', 0, 0]
                w.dead = False
                return max(1, n * part // 100)
            w.fs.crashed = True
            raise simfs.Crash()
        if kind == 'error':
            if what in ('access', 'close', 'listdir', 'fsync'):
                return None     # cannot fail, or not in this way
            if part & 1 and what == 'read' or part & 2 and what in ('rename', 'open') or part & 4 and what == 'write':
                w.dead = True
                w.hits += 1
                raise w.fs.error({'read': errno.EIO, 'rename': errno.EACCES, 'open': errno.EMFILE, 'write': errno.EIO}[what])
        if kind == 'closeerr' and what == 'close':
            w.dead = True
            w.hits += 1
            raise w.fs.error(errno.EIO)
        return None
    return h


# -- documents ----------------------------------------------------------------

def gsltext(rng, n):
    words = 'kind of object that has a set of attributes, each one <known> & "named" by {its} name\\; $10 50% _x_ #1'.split()
    return ' '.join(rng.choice(words) for _ in range(n))


def document(rng, imports):
    """-> source of a package with documents"""
    out = []
    ks = ['k%d' % i for i in range(rng.choice([1, 1, 2, 4]))]
    used = list(ks)
    if imports:
        out += ['.import:: ik0, ik1', '..from: lib', '']
        used += ['ik0', 'ik1']
    for k in ks:
        out += ['.kind:: ' + k, '..d: ' + gsltext(rng, rng.randrange(1, 12))]
        for j in range(rng.randrange(4)):
            out += ['..attr:: a%d' % j, '...d: ' + gsltext(rng, 5)]
        for j in range(rng.randrange(3)):
            out += ['..method:: m%d' % j, '...d: ' + gsltext(rng, 3)]
            if rng.random() < .5:
                out += ['...arg: x: %s' % rng.choice(used)]
        out.append('')
    names = rng.sample(BASE, rng.choice([1, 1, 2, 3]))
    for nm in names:
        modes = rng.sample(['html', 'latex', 'tester', 'xhtml'], rng.choice([1, 1, 2, 3]))
        out += ['.document: ' + nm, '..output: ' + ', '.join(modes)]
        if 'tester' not in modes or rng.random() < .5:
            out += ['..h1: ' + gsltext(rng, 3)]
        for k in rng.sample(used, rng.randrange(1, len(used) + 1)):
            out += ['..man page of: ' + k]
        if 'tester' in modes:
            out += ['..test of: ' + ks[0]]
        for j in range(rng.choice([0, 0, 3, 60])):
            out += ['..p: ' + gsltext(rng, 20)]
    return '\n'.join(out) + '\n'


def library(rng):
    out = []
    for k in ('ik0', 'ik1'):
        out += ['.kind:: ' + k, '..d: ' + gsltext(rng, rng.randrange(1, 9))]
        for j in range(rng.randrange(3)):
            out += ['..attr:: b%d' % j, '...d: ' + gsltext(rng, 4)]
        out.append('')
    return '\n'.join(out) + '\n'


PRISTINE = {}


class TooBig(Exception):
    pass


def docs(w, texts, lib):
    """what a session of its own writes, for these inputs, into an empty
    directory: [(name, contents)] in order, or None"""
    key = hashlib.sha256(repr((texts, sorted(lib.items()))).encode()).hexdigest()
    if key not in PRISTINE:
        fs = FS()
        g = session(fs)
        got = []
        IO = g.FileIO.IO
        for k, v in lib.items():
            put(fs, k, v)
        for t in texts:
            put(fs, DIR + '/' + source(t), t.encode())
        IO.write_file = lambda name, data: got.append((name, data.encode()))
        with contextlib.redirect_stdout(io.StringIO()) as o:
            for t in texts:
                g.Main.main(source(t), input_dir=DIR, output_dir=DIR)
        PRISTINE[key] = got, 'no files written' in o.getvalue()
    return PRISTINE[key]


def source(text):
    return 's%s.gsl' % hashlib.sha256(text.encode()).hexdigest()[:8]


def put(fs, name, data):
    node = fs.names.get(name)
    if node is None:
        node = fs.names[name] = simfs.Inode(fs)
    node.data[:] = data


# ---------------------------------------------------------------------------

def contents(c):
    seed, n, alpha = c
    rng = random.Random(seed)
    return ''.join(rng.choice(alpha) for _ in range(n))


def arm(w, fault):
    w.fault = fault and list(fault)
    w.n = w.hits = 0
    w.dead = w.part = False
    w.room = fault[1] if fault and fault[0] == 'full' else 0
    w.fs.hook = hook(w)


def run(plan, ctx):
    cfg = plan['cfg']
    w = W()
    w.ctx = ctx
    w.fs = fs = FS()
    fs.readmax = cfg['readmax'] or None
    fs.bufsize = cfg['bufsize'] or None
    w.cfg = cfg
    w.g = None
    w.fault = None
    for op in plan['ops']:
        ctx.step()
        fs.t += 17
        o = op[0]
        if w.g is None or o == 'session':
            w.fs.hook = None
            w.g = session(fs)
            if cfg['suffix'] is not True:
                w.g.Filer.backup_suffix = cfg['suffix']
            w.suffix = w.g.Filer.backup_suffix
        if o == 'files':
            files(w, op)
        elif o == 'docs':
            rundocs(w, op)
        elif o == 'edit':
            name = DIR + '/' + op[1]
            if op[2] is None:
                fs.names.pop(name, None)
            else:
                put(fs, name, contents(op[2]).encode('utf-8', 'surrogatepass'))
            ctx.log('edit', name)
        elif o == 'chmod':
            name = DIR + '/' + op[1]
            if name in fs.names:
                w.g.FileIO
                fs.os.mode[fs.names[name].ino] = op[2]
                ctx.log('chmod', name, op[2])


def snapshot(w):
    return {k: bytes(v.data) for k, v in w.fs.names.items()}


def execute(w, f, fault):
    """-> exception"""
    arm(w, fault)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as o:
            f()
    except simfs.Crash as e:
        w.fs.hook = None
        w.fs.after_crash()
        w.g = None
        w.ctx.fault('crash')
        return e, o.getvalue()
    except Exception as e:
        e.__traceback__ = None
        w.fs.hook = None
        if w.hits:
            w.ctx.fault(fault[0], w.hits)
        need(not w.fs.open_now, 'handle', lambda: 'a file is left open after %r' % (e,))
        return e, o.getvalue()
    finally:
        w.fs.hook = None
        w.fs.open_now.clear()
    if w.hits:
        w.ctx.fault(fault[0], w.hits)
    return None, o.getvalue()


def check(w, before, modes, targets, e, out, fault, refused=False):
    """targets: [(name, contents)] in order"""
    after = snapshot(w)
    sfx = w.suffix
    names = [t for t, d in targets]
    bak = {t: t + sfx for t in names} if sfx else {}
    may = set(names) | set(bak.values())
    for k in before.keys() | after.keys():
        if k not in may:
            need(before.get(k) == after.get(k), 'other-file', lambda: '%r is not a target or the backup of one, but was %s' % (k, 'changed' if k in before and k in after else 'made' if k in after else 'removed'))
    last = dict(targets)
    ok = e is None and not refused
    for t in last:
        if ok:
            need(after.get(t) == last[t], 'target', lambda: '%r has %s after a run without errors, instead of the %d bytes generated' % (t, short(after.get(t)), len(last[t])))
        if not sfx:
            continue
        b = bak[t]
        if t in before:
            # the previous contents are under one of the names
            if ok:
                need(after.get(b) == before[t], 'backup', lambda: '%r has %s, not the version of %r that was replaced (%s)' % (b, short(after.get(b)), t, short(before[t])))
            else:
                need(before[t] in (after.get(t), after.get(b)), 'lost', lambda: 'the run ended by %r; what was in %r before (%s) is neither there (%s) nor in %r (%s)' % (e, t, short(before[t]), short(after.get(t)), b, short(after.get(b))))
        elif b in before and b not in last:
            need(after.get(b) == before[b], 'old-backup', lambda: 'there was no %r, but the backup %r changed' % (t, b))
    w.ctx.probe('run', len(last))


def short(b):
    return 'nothing' if b is None else '%d bytes %r' % (len(b), bytes(b[:20]))


def files(w, op):
    """files given directly"""
    _, spec, fault = op
    g = w.g
    taci = g.SpecNodes.node_of_taci
    targets, nodes, bad = [], [], False
    for n, c in spec:
        name = DIR + '/' + n
        text = contents(c)
        if any(name == t for t, d in targets):
            continue
        nodes.append(taci('write_file', name, [taci('text', text)]))
        try:
            data = text.encode()
        except UnicodeEncodeError:
            bad = True
            data = b''
        targets.append((name, data))
    before = snapshot(w)
    denied = [t for t, d in targets if t in before and not w.fs.os.mode.get(w.fs.names[t].ino, 6) & 2]

    def f():
        if w.cfg['oneby']:
            for n in nodes:
                g.Filer.filer(n).write()
        else:
            fl = g.Filer.filer(g.SpecNodes.node_of_taci('file', '', nodes))
            fl.write()
    e, out = execute(w, f, fault)
    judge(w, e, bad or bool(denied), fault)
    check(w, before, None, targets, e, out, fault)
    w.ctx.log('files', [n for n, c in spec], type(e).__name__, sorted(w.fs.names))
    w.ctx.state('files', len(spec), fault and fault[0], type(e).__name__, len(w.fs.names))


def judge(w, e, expected, fault):
    if e is None:
        need(not w.hits or fault[0] == 'short', 'unreported', lambda: 'the failure %r was not reported' % (fault,))
        need(not expected, 'unreported', 'a file that cannot be written was not reported')
    elif isinstance(e, simfs.Crash):
        pass
    elif isinstance(e, OSError):
        need(w.hits or expected, 'error', lambda: 'a run on a healthy disk raised %r' % (e,))
    elif isinstance(e, UnicodeEncodeError):
        need(expected, 'error', repr(e))
    else:
        raise Violation('error', 'a run raised %r' % (e,))


def rundocs(w, op):
    """packages whose documents are generated and written"""
    _, seeds, lib, fault = op
    g, fs = w.g, w.fs
    texts = [document(random.Random(s), lib is not None) for s in seeds]
    libs = {} if lib is None else {DIR + '/lib.gsl': library(random.Random(lib)).encode()}
    for k, v in libs.items():
        put(fs, k, v)
    for t in texts:
        put(fs, DIR + '/' + source(t), t.encode())
    # one package at a time, since each is a run
    for i in range(len(texts)):
        before = snapshot(w)
        tg, err = docs(w, [texts[i]], libs)
        session_again(w)
        names = [t for t, d in tg]
        dup = len(set(names)) < len(names)
        denied = [t for t in names if t in before and not fs.os.mode.get(fs.names[t].ino, 6) & 2]
        e, out = execute(w, lambda: g.Main.main(source(texts[i]), input_dir=DIR, output_dir=DIR), fault if i == len(texts) - 1 else None)
        refused = e is None and 'no files written' in out
        need(not refused or dup or err, 'refused', lambda: 'the run wrote nothing: %s' % out[-400:])
        judge(w, e, bool(denied) and not refused, fault)
        if refused:
            need(snapshot(w) == before, 'refused', 'files were written although it was said that there are none')
        check(w, before, None, tg, e, out, fault, refused)
        w.ctx.log('docs', i, len(tg), [len(d) for t, d in tg], type(e).__name__, refused)
        w.ctx.state('docs', len(tg), dup, fault and fault[0], type(e).__name__)
        if w.g is None:
            return


def session_again(w):
    """the modules use the files of this run"""
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '') in ('guppy.gsl.FileIO', 'guppy.gsl.Filer'):
            m.open = w.fs.open
            for k in ('os',):
                if hasattr(m, k):
                    setattr(m, k, w.fs.os)


# ---------------------------------------------------------------------------

ALPHA = ['ab\n', 'x. \n\t', 'aå€\U0001f600\n', '\r\n\x00z', 'q']


def gen(rng, tier):
    cfg = dict(suffix=rng.choice([True] * 6 + ['.bak', '~', None]), bufsize=rng.choice([0, 0, 1, 16, 100, 1000]), readmax=rng.choice([0, 0, 1, 7, 100]), oneby=rng.random() < .3)
    names = rng.sample(['a.html', 'b.tex', 'c.py', 'd', 'sub/e.html'] + [b + '.html' for b in BASE], 5)

    def cont(ok=False):
        return [rng.randrange(1 << 30), rng.choice([0, 1, 5, 60, 900, 9000]), rng.choice(ALPHA + ([] if ok else ['ab\ud800'] * (rng.random() < .1)))]

    def fault(p, scale):
        if rng.random() > p:
            return None
        k = rng.choice(['crash', 'crash', 'crash', 'error', 'error', 'full', 'full', 'short', 'closeerr'])
        if k == 'full':
            return [k, rng.choice([0, 1, 10, 100, 1000, 5000, 20000]), 0]
        if k == 'short':
            return [k, rng.randrange(1, 4), rng.randrange(1, 100)]
        return [k, rng.choice([1, 2, 3, rng.randrange(1, 20), rng.randrange(1, scale)]), rng.choice([0, 0, 50, 99]) if k == 'crash' else rng.randrange(1, 8)]
    ops = []
    sd = [rng.randrange(1 << 30) for _ in range(3)]
    for _ in range(rng.choice([1, 2, 4, 8, 14])):
        x = rng.random()
        if x < .5:
            ops.append(['files', [[rng.choice(names), cont()] for _ in range(rng.choice([1, 1, 2, 4]))], fault(.6, 60)])
        elif x < .75:
            s = [rng.choice(sd) if rng.random() < .6 else rng.randrange(1 << 30) for _ in range(rng.choice([1, 1, 2]))]
            lib = rng.choice([None, None, rng.randrange(1 << 30), sd[0]])
            ops.append(['docs', s, lib, fault(.6, 100)])
        elif x < .85:
            ops.append(['edit', rng.choice(names) + rng.choice(['', '', ',gsl-backuped', '.other']), None if rng.random() < .3 else cont(True)])
        elif x < .92:
            ops.append(['chmod', rng.choice(names), rng.choice([6, 4, 2, 0])])
        else:
            ops.append(['session'])
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    for i, op in enumerate(plan['ops']):
        if op[0] in ('files', 'docs'):
            for j in range(len(op[1])):
                if len(op[1]) > 1:
                    yield dict(cfg=plan['cfg'], ops=plan['ops'][:i] + [[op[0], op[1][:j] + op[1][j + 1:]] + op[2:]] + plan['ops'][i + 1:])
