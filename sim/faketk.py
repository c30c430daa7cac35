"""As much of tkinter as guppy.heapy.Prof uses, without a display: widgets that
remember their options, canvases that remember their items, texts that remember
their contents, and timers that a simulator runs."""
import sys, types


class TclError(Exception):
    pass


class App:
    """what there is one of per simulated run"""
    now = 0
    timers = []
    serial = 0
    boxes = []

    def reset(self):
        self.now = 0
        self.timers = []
        self.serial = 0
        self.boxes = []

    def after(self, ms, f):
        self.serial += 1
        self.timers.append((self.now + ms, self.serial, f))
        return 'after#%d' % self.serial

    def cancel(self, i):
        self.timers = [t for t in self.timers if 'after#%d' % t[1] != i]

    def run(self, ms):
        """advance the clock"""
        end = self.now + ms
        while True:
            t = min((t for t in self.timers if t[0] <= end), default=None)
            if t is None:
                break
            self.timers.remove(t)
            self.now = t[0]
            t[2]()
        self.now = end


app = App()


class Misc:
    defaults = dict(width=200, height=100, cursor='', bg='#ccc', state='normal')

    def __init__(self, master=None, cnf={}, **kw):
        self.master = master
        self._options = dict(self.defaults, **dict(cnf, **kw))
        self.tk = types.SimpleNamespace(call=lambda *a: None)
        self._w = '.w'
        self._tclCommands = []

    def __getitem__(self, k):
        return self._options.get(k, '')

    cget = __getitem__

    def __setitem__(self, k, v):
        self._options[k] = v

    def configure(self, cnf={}, **kw):
        self._options.update(cnf, **kw)

    config = configure

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        if a.startswith('winfo_'):
            return lambda *x: 400
        if a not in METHODS:
            raise AttributeError(a)
        return lambda *x, **k: None

    def winfo_toplevel(self):
        return self

    def after(self, ms, f=None, *args):
        return app.after(ms, (lambda: f(*args)) if args else f)

    def after_idle(self, f):
        return app.after(0, f)

    def after_cancel(self, i):
        app.cancel(i)

    def title(self, t=None):
        if t is None:
            return self._options.get('title', '')
        self._options['title'] = t

    def wm_state(self):
        return 'normal'

    def bind(self, seq=None, func=None, add=None):
        return 'bind#1'

    def index(self, i):
        return 1

    def entrycget(self, i, o):
        return ''


METHODS = set('''grid pack place grid_forget pack_forget update update_idletasks unbind destroy quit mainloop withdraw
 resizable minsize maxsize geometry iconname wm_deiconify tkraise add_command add_cascade add_radiobutton add_checkbutton add_separator
 insert_radiobutton deletecommand invoke focus_set grid_propagate pack_propagate columnconfigure rowconfigure set wm_geometry lift lower
 protocol select deselect wm_protocol transient delete wm_title option_add'''.split())


class Canvas(Misc):
    def __init__(self, *a, **k):
        Misc.__init__(self, *a, **k)
        self.items = {}
        self.n = 0
        self.left = 0.0
        self.pending = False

    def _create(self, kind, *coords, **kw):
        self.n += 1
        t = kw.get('tags', ())
        if coords and isinstance(coords[0], (tuple, list)):
            coords = coords[0]
        self.items[self.n] = [kind, list(coords), (t,) if isinstance(t, str) else tuple(t), kw]
        return self.n

    def __getattr__(self, a):
        if a.startswith('create_'):
            return lambda *c, **k: self._create(a[7:], *c, **k)
        return Misc.__getattr__(self, a)

    def find(self, tag):
        return [i for i, it in self.items.items() if tag == 'all' or i == tag or tag in it[2]]

    def delete(self, *tags):
        for tag in tags:
            for i in self.find(tag):
                del self.items[i]

    def scale(self, tag, x, y, xs, ys):
        for i in self.find(tag):
            c = self.items[i][1]
            for k in range(0, len(c), 2):
                c[k] = (c[k] - x) * xs + x
                c[k + 1] = (c[k + 1] - y) * ys + y

    def coords(self, tag, *c):
        for i in self.find(tag):
            if not c:
                return self.items[i][1]
            self.items[i][1] = list(c)

    def move(self, tag, dx, dy):
        for i in self.find(tag):
            c = self.items[i][1]
            for k in range(0, len(c), 2):
                c[k] += dx
                c[k + 1] += dy

    def _raise(self, tag, above=None):
        if above is not None and not self.find(above):
            raise TclError('tagOrId "%s" doesn\'t match any items' % above)

    tag_raise = tag_lower = lift = lower = _raise

    def itemconfigure(self, tag, **k):
        pass

    itemconfig = itemconfigure

    def tag_bind(self, *a, **k):
        return 'bind#1'

    def bbox(self, *a):
        return (0, 0, 7, 12)

    def canvasx(self, x, *a):
        return x + self.left

    def canvasy(self, y, *a):
        return y

    def region(self):
        r = self['scrollregion']
        w = float(self['width'])
        return (r[0], r[2], w) if r else (0.0, w, w)

    def configure(self, cnf={}, **kw):
        Misc.configure(self, cnf, **kw)
        if 'scrollregion' in kw:
            self.moveto(self.left)

    config = configure

    def moveto(self, left):
        x1, x2, w = self.region()
        left = max(x1, min(left, x2 - w))
        if left != self.left:
            self.left = left
            f = self['xscrollcommand']
            if f and not self.pending:
                self.pending = True

                def tell():
                    self.pending = False
                    f(*self.xview())
                app.after(0, tell)

    def xview(self, *a):
        x1, x2, w = self.region()
        if not a:
            return ((self.left - x1) / (x2 - x1), min(1.0, (self.left + w - x1) / (x2 - x1)))
        if a[0] == 'moveto':
            self.moveto(x1 + float(a[1]) * (x2 - x1))

    def yview(self, *a):
        if not a:
            return (0.0, 1.0)


class Text(Misc):
    defaults = dict(Misc.defaults, width=80, height=24)

    def __init__(self, *a, **k):
        Misc.__init__(self, *a, **k)
        self.text = ''

    def insert(self, where, s, *tags):
        if self['state'] == 'disabled':
            return
        assert where == 'end', where
        self.text += s

    def delete(self, a, b=None):
        if self['state'] == 'disabled':
            return
        assert a == '1.0' and b == 'end'
        self.text = ''

    def index(self, i):
        return '%d.0' % (self.text.count('\n') + 2)

    def tag_configure(self, *a, **k):
        pass

    tag_config = tag_configure

    def yview(self, *a):
        return (0.0, 1.0)


class Variable:
    _default = ''

    def __init__(self, master=None, value=None, name=None):
        self.v = self._default if value is None else value

    def set(self, v):
        self.v = v

    def get(self):
        return self.v

    def trace(self, *a):
        pass


class StringVar(Variable):
    def get(self):
        return str(self.v)


class IntVar(Variable):
    _default = 0


class DoubleVar(Variable):
    _default = 0.0


class BooleanVar(Variable):
    _default = False


def install():
    m = types.ModuleType('tkinter')
    for n in ('N S E W NW NE SW SE NS EW NSEW CENTER NONE X Y BOTH LEFT TOP RIGHT BOTTOM RAISED SUNKEN FLAT RIDGE GROOVE SOLID HORIZONTAL VERTICAL '
              'NUMERIC CHAR WORD BASELINE INSIDE OUTSIDE SEL SEL_FIRST SEL_LAST END INSERT CURRENT ANCHOR ALL NORMAL DISABLED ACTIVE HIDDEN '
              'CASCADE CHECKBUTTON COMMAND RADIOBUTTON SEPARATOR SINGLE BROWSE MULTIPLE EXTENDED MOVETO SCROLL UNITS PAGES FIRST LAST').split():
        setattr(m, n, n.lower())
    m.YES = m.TRUE = m.ON = 1
    m.NO = m.FALSE = m.OFF = 0
    for n in ('Tk', 'Toplevel', 'Frame', 'Label', 'Button', 'Checkbutton', 'Radiobutton', 'Menubutton', 'Menu', 'Entry', 'Scrollbar', 'LabelFrame', 'Message', 'Scale', 'Listbox'):
        setattr(m, n, type(n, (Misc,), {}))
    for c in (Misc, Canvas, Text, Variable, StringVar, IntVar, DoubleVar, BooleanVar, TclError):
        setattr(m, c.__name__, c)
    m.__all__ = [n for n in vars(m) if not n.startswith('_')]
    fd = types.ModuleType('tkinter.filedialog')
    mb = types.ModuleType('tkinter.messagebox')
    mb.showerror = lambda *a, **k: app.boxes.append(k.get('message'))
    m.filedialog, m.messagebox = fd, mb
    sys.modules.update({'tkinter': m, 'tkinter.filedialog': fd, 'tkinter.messagebox': mb})
