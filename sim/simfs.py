"""A file system in memory: what open(), os.stat() and friends give, with a hook
before every system call, faults at chosen ones, and crashes that keep only
what had been written by then."""
import io, os, errno, posixpath


class Crash(BaseException):
    """the process ends here"""


class Inode:
    n = 0

    def __init__(self, fs):
        fs.ninode += 1
        self.ino = fs.ninode
        self.data = bytearray()
        self.mtime = fs.now()
        self.nlink = 1


class Raw(io.RawIOBase):
    def __init__(self, fs, node, name, r, w, app):
        self.fs, self.node, self.name_, self.r, self.w, self.app = fs, node, name, r, w, app
        self.pos = len(node.data) if app else 0
        self.fd = 1000 + len(fs.handles)
        fs.handles.append(self)
        fs.open_now.add(self)

    name = property(lambda self: self.name_)

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        self.fs.syscall('read', self)
        n = min(len(b), self.fs.readmax or len(b))
        d = bytes(self.node.data[self.pos:self.pos + n])
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        n = self.fs.syscall('write', self, len(b))
        b = bytes(b)[:n]
        if self.app:
            self.pos = len(self.node.data)
        d = self.node.data
        if self.pos > len(d):
            d.extend(bytes(self.pos - len(d)))
        d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        self.node.mtime = self.fs.now()
        self.fs.syscall('written', self)
        return len(b)

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.node.data))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.node.data[size:]
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.fs.open_now.discard(self)
                if not self.fs.crashed:
                    self.fs.syscall('close', self)


class FS:
    """syscall(name, handle, n) is called before each system call; it returns how
    many bytes a write takes, or raises."""

    def __init__(self):
        self.names = {}
        self.handles = []
        self.open_now = set()
        self.ninode = 10
        self.t = 1000000000.0
        self.hook = None
        self.readmax = None
        self.bufsize = None
        self.ncalls = 0
        self.crashed = False

    def now(self):
        return self.t

    def syscall(self, what, h=None, n=0):
        if self.crashed:
            raise Crash()
        if what != 'written':
            self.ncalls += 1
        if self.hook is not None:
            r = self.hook(what, h, n)
            if r is not None:
                return r
        return n

    def error(self, no, name=None):
        return OSError(no, os.strerror(no), name)

    # -- what takes the place of builtins.open -----------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        file = os.fspath(file)
        base = mode.replace('b', '').replace('t', '').replace('U', '') or 'r'
        self.syscall('open')
        node = self.names.get(file)
        if base[0] == 'r' and node is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), file)
        if base[0] == 'x' and node is not None:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), file)
        if node is None:
            node = self.names[file] = Inode(self)
        elif base[0] == 'w':
            del node.data[:]
            node.mtime = self.now()
        plus = '+' in base
        raw = Raw(self, node, file, base[0] == 'r' or plus, base[0] != 'r' or plus, base[0] == 'a')
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else self.bufsize or io.DEFAULT_BUFFER_SIZE
        b = (io.BufferedRandom if plus else io.BufferedReader if base[0] == 'r' else io.BufferedWriter)(raw, size)
        if 'b' in mode:
            return b
        t = io.TextIOWrapper(b, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t

    # -- what takes the place of os ------------------------------------------
    def result(self, node):
        s = os.stat_result((0o100644, node.ino, 1, node.nlink, 0, 0, len(node.data), int(node.mtime), int(node.mtime), int(node.mtime),
                            node.mtime, node.mtime, node.mtime, int(node.mtime * 1e9), int(node.mtime * 1e9), int(node.mtime * 1e9)))
        return s

    def stat(self, name, **kw):
        if isinstance(name, int):
            return self.fstat(name)
        self.syscall('stat')
        node = self.names.get(os.fspath(name))
        if node is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
        return self.result(node)

    def fstat(self, fd):
        self.syscall('fstat')
        return self.result(self.handles[fd - 1000].node)

    def rename(self, a, b):
        self.syscall('rename')
        if a not in self.names:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        self.names[b] = self.names.pop(a)
        self.syscall('renamed')

    replace = rename

    def remove(self, a):
        self.syscall('remove')
        if a not in self.names:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        del self.names[a]

    unlink = remove

    def exists(self, a):
        return os.fspath(a) in self.names

    def content(self, name):
        node = self.names.get(name)
        return None if node is None else bytes(node.data)

    def after_crash(self):
        """the process is gone: nothing that was buffered reaches the file"""
        self.crashed = False
        self.open_now.clear()


class Path:
    def __init__(self, fs):
        self.fs = fs

    def exists(self, a):
        return self.fs.exists(a)

    isfile = lexists = exists

    def isdir(self, a):
        return a in ('', '.', '/')

    def getsize(self, a):
        return self.fs.stat(a).st_size

    def getmtime(self, a):
        return self.fs.stat(a).st_mtime

    def __getattr__(self, a):
        return getattr(posixpath, a)


class OS:
    """os as far as files are concerned"""

    def __init__(self, fs):
        self.fs = fs
        self.path = Path(fs)
        for a in ('stat', 'fstat', 'rename', 'replace', 'remove', 'unlink'):
            setattr(self, a, getattr(fs, a))
        self.lstat = fs.stat

    def __getattr__(self, a):
        return getattr(os, a)
