/* simrt: the simulator's run-time seams inside the interpreter.
 *
 * 1. A deterministic allocator for the MEM and OBJ domains: blocks come from
 *    an arena at a fixed address; freed blocks are poisoned and either
 *    reused LIFO, reused pseudo-randomly or quarantined; realloc always
 *    moves; double frees, overruns and writes to freed memory are detected.
 * 2. Allocation faults: inside a window opened by call() the n-th allocation
 *    (and the following burst-1) fails.
 * 3. Interpreter safe points: a callback for sys.monitoring that counts the
 *    points of the code under test where CPython may deliver a signal, run
 *    the collector or switch threads, and runs an injected action at a
 *    chosen one.
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define Py_BUILD_CORE
#undef _PyGC_FINALIZED
#include <internal/pycore_typeobject.h>
#include <internal/pycore_interp.h>
#include <internal/pycore_frame.h>
#include <internal/pycore_code.h>
#undef Py_BUILD_CORE
#include <frameobject.h>
#include <sys/mman.h>
#include <signal.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <sys/wait.h>

#define BASE ((char *)0x510000000000ULL)
#define RESERVE ((size_t)6 << 30)
#define LIVE 0x5afe11feu
#define DEAD 0xdeadb10cu
#define POISON 0xDB
#define CANARY 0xC5
#define CLS_MAX 129        /* size classes of 16 bytes up to 2048 */

typedef struct {
    size_t size;            /* requested */
    size_t cap;             /* usable bytes after header */
    uint32_t magic;
    uint32_t serial;
    void *next;
} Hdr;                      /* 32 bytes */

static char *cur, *end;
static int installed;
static int mode;            /* 0 lifo, 1 quarantine, 2 random */
static uint64_t rnd = 88172645463325252ULL;
static Hdr *freelist[CLS_MAX];
static size_t nfree_cls[CLS_MAX];
static size_t live_blocks, live_bytes, total_allocs;
static uint32_t serial;

/* fault window */
static int armed, suspended;
static long f_count, f_at, f_burst, f_fired, f_sig_at, f_sig_fired;

static PyMemAllocatorEx org_mem, org_obj;

static uint64_t xs(void) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }

static void die(const char *msg, void *p)
{
    char buf[256];
    int n = snprintf(buf, sizeof buf, "SIMRT-MEMORY-ERROR: %s at %p\n", msg, p);
    if (write(2, buf, n) < 0) {}
    abort();
}

static inline int ours(void *p) { return (char *)p >= BASE && (char *)p < BASE + RESERVE; }

static int
should_fail(void)
{
    if (!armed || suspended)
        return 0;
    f_count++;
    if (f_sig_at && f_count == f_sig_at) {
        f_sig_fired++;
        PyErr_SetInterruptEx(SIGINT);
    }
    if (f_at && f_count >= f_at && f_count < f_at + f_burst) {
        f_fired++;
        return 1;
    }
    return 0;
}

static void *
raw_alloc(size_t size)
{
    size_t cap = (size + 15) & ~(size_t)15;
    size_t cls;
    Hdr *h = NULL;
    if (!cap) cap = 16;
    cls = cap / 16;
    if (cls < CLS_MAX && freelist[cls] && mode != 1) {
        if (mode == 0) {
            h = freelist[cls];
            freelist[cls] = h->next;
        } else {
            size_t k = xs() % (nfree_cls[cls] < 8 ? nfree_cls[cls] : 8);
            Hdr **pp = &freelist[cls];
            while (k--) pp = (Hdr **)&(*pp)->next;
            h = *pp;
            *pp = h->next;
        }
        nfree_cls[cls]--;
        if (h->magic != DEAD) die("free list corrupted", h + 1);
        {
            unsigned char *q = (unsigned char *)(h + 1);
            size_t i;
            for (i = 0; i < h->cap; i++)
                if (q[i] != POISON) die("write to freed memory", h + 1);
        }
    } else {
        size_t need = sizeof(Hdr) + cap + 16;
        if (cur + need > end)
            return NULL;
        h = (Hdr *)cur;
        cur += need;
        h->cap = cap;
    }
    h->size = size;
    h->magic = LIVE;
    h->serial = ++serial;
    h->next = NULL;
    memset((char *)(h + 1) + size, CANARY, h->cap + 16 - size);
    live_blocks++;
    live_bytes += size;
    total_allocs++;
    return h + 1;
}

static void
check_canary(Hdr *h)
{
    unsigned char *q = (unsigned char *)(h + 1) + h->size;
    size_t i, n = h->cap + 16 - h->size;
    for (i = 0; i < n; i++)
        if (q[i] != CANARY) die("write past the end of a block", h + 1);
}

static void
raw_free(void *p)
{
    Hdr *h = (Hdr *)p - 1;
    size_t cls;
    if (h->magic == DEAD) die("double free", p);
    if (h->magic != LIVE) die("free of a bad pointer", p);
    check_canary(h);
    live_blocks--;
    live_bytes -= h->size;
    h->magic = DEAD;
    memset(p, POISON, h->cap);
    cls = h->cap / 16;
    if (cls < CLS_MAX) {
        h->next = freelist[cls];
        freelist[cls] = h;
        nfree_cls[cls]++;
    } else if (h->cap >= 65536) {
        /* give big dead blocks back to the kernel, keep the address dead */
        char *lo = (char *)(((uintptr_t)p + 4095) & ~(uintptr_t)4095);
        char *hi = (char *)(((uintptr_t)p + h->cap) & ~(uintptr_t)4095);
        if (hi > lo)
            madvise(lo, hi - lo, MADV_DONTNEED);
    }
}

static void *s_malloc(void *ctx, size_t size)
{
    if (should_fail()) return NULL;
    return raw_alloc(size);
}
static void *s_calloc(void *ctx, size_t n, size_t es)
{
    void *p;
    if (es && n > (size_t)PY_SSIZE_T_MAX / es) return NULL;
    if (should_fail()) return NULL;
    p = raw_alloc(n * es);
    if (p) memset(p, 0, n * es);
    return p;
}
static void *s_realloc(void *ctx, void *p, size_t size)
{
    void *q;
    PyMemAllocatorEx *o = ctx;
    if (should_fail()) return NULL;
    if (!p) return raw_alloc(size);
    if (!ours(p)) return o->realloc(o->ctx, p, size);
    {
        Hdr *h = (Hdr *)p - 1;
        if (h->magic != LIVE) die("realloc of a dead block", p);
        q = raw_alloc(size);
        if (!q) return NULL;
        memcpy(q, p, h->size < size ? h->size : size);
        raw_free(p);
    }
    return q;
}
static void s_free(void *ctx, void *p)
{
    PyMemAllocatorEx *o = ctx;
    if (!p) return;
    if (!ours(p)) { o->free(o->ctx, p); return; }
    raw_free(p);
}

static PyObject *
install(PyObject *self, PyObject *args)
{
    PyMemAllocatorEx a;
    char *m;
    if (installed) Py_RETURN_NONE;
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
    m = mmap(BASE, RESERVE, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != BASE) {
        PyErr_SetString(PyExc_OSError, "simrt: cannot map the arena");
        return NULL;
    }
    cur = BASE;
    end = BASE + RESERVE;
    PyMem_GetAllocator(PYMEM_DOMAIN_MEM, &org_mem);
    PyMem_GetAllocator(PYMEM_DOMAIN_OBJ, &org_obj);
    a.malloc = s_malloc; a.calloc = s_calloc; a.realloc = s_realloc; a.free = s_free;
    a.ctx = &org_mem;
    PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &a);
    a.ctx = &org_obj;
    PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &a);
    installed = 1;
    Py_RETURN_NONE;
}

static PyObject *
set_mode(PyObject *self, PyObject *args)
{
    unsigned long long s = 0;
    int m;
    if (!PyArg_ParseTuple(args, "i|K", &m, &s)) return NULL;
    mode = m;
    rnd = 88172645463325252ULL ^ (s * 0x9E3779B97F4A7C15ULL);
    if (!rnd) rnd = 1;
    Py_RETURN_NONE;
}

static PyObject *
stats(PyObject *self, PyObject *args)
{
    return Py_BuildValue("(nnn)", (Py_ssize_t)live_blocks, (Py_ssize_t)live_bytes,
                         (Py_ssize_t)total_allocs);
}

/* walk the arena: canaries of live blocks, poison of dead blocks */
static PyObject *
check(PyObject *self, PyObject *args)
{
    char *p = BASE;
    while (p < cur) {
        Hdr *h = (Hdr *)p;
        if (h->magic == LIVE)
            check_canary(h);
        else if (h->magic == DEAD) {
            if (h->cap < 65536) {
                unsigned char *q = (unsigned char *)(h + 1);
                size_t i;
                for (i = 0; i < h->cap; i++)
                    if (q[i] != POISON) die("write to freed memory", h + 1);
            }
        } else
            die("block header overwritten", h + 1);
        p += sizeof(Hdr) + h->cap + 16;
    }
    Py_RETURN_NONE;
}

/* blocks(since) -> [(address, size)] of the live blocks allocated after */
static PyObject *
blocks(PyObject *self, PyObject *arg)
{
    unsigned long since = PyLong_AsUnsignedLong(arg), now = serial;
    PyObject *r;
    char *p = BASE, *stop = cur;
    if (since == (unsigned long)-1 && PyErr_Occurred()) return NULL;
    if (!(r = PyList_New(0))) return NULL;
    while (p < stop) {
        Hdr *h = (Hdr *)p;
        if (h->magic == LIVE && h->serial > since && h->serial <= now) {
            PyObject *t = Py_BuildValue("(Kn)", (unsigned long long)(uintptr_t)(h + 1), (Py_ssize_t)h->size);
            if (!t || PyList_Append(r, t)) { Py_XDECREF(t); Py_DECREF(r); return NULL; }
            Py_DECREF(t);
        }
        p += sizeof(Hdr) + h->cap + 16;
    }
    return r;
}

static PyObject *
get_serial(PyObject *self, PyObject *args)
{
    return PyLong_FromUnsignedLong(serial);
}

static PyObject *
is_live(PyObject *self, PyObject *arg)
{
    void *p = PyLong_AsVoidPtr(arg);
    if (!p && PyErr_Occurred()) return NULL;
    if (!ours(p)) Py_RETURN_NONE;
    return PyBool_FromLong(((Hdr *)p - 1)->magic == LIVE);
}

/* call(func, args, kwargs_or_None, fail_at, burst, sig_at) -> result
   after which last() -> (allocations, failed, signalled) */
static PyObject *
call(PyObject *self, PyObject *args)
{
    PyObject *f, *a, *kw, *r;
    long at, burst, sig;
    if (!PyArg_ParseTuple(args, "OO!Olll", &f, &PyTuple_Type, &a, &kw, &at, &burst, &sig))
        return NULL;
    f_count = 0; f_fired = 0; f_sig_fired = 0;
    f_at = at; f_burst = burst; f_sig_at = sig;
    suspended = 0;
    armed = 1;
    r = PyObject_Call(f, a, kw == Py_None ? NULL : kw);
    armed = 0;
    return r;
}

static PyObject *
last(PyObject *self, PyObject *args)
{
    return Py_BuildValue("(lll)", f_count, f_fired, f_sig_fired);
}

static PyObject *
suspend(PyObject *self, PyObject *arg)
{
    int s = PyObject_IsTrue(arg);
    int o = suspended;
    suspended = s;
    return PyBool_FromLong(o);
}

/* ---- safe points ---- */
static PyObject *sp_prefix, *sp_hook;
static Py_ssize_t sp_count, sp_at, sp_every;
static int sp_on, sp_busy;
static int sp_action; /* 0 none 1 sigint 2 hook 3 gc */

static PyObject *sp_gc;

static PyObject *
safepoint(PyObject *self, PyObject *const *args, Py_ssize_t n)
{
    PyCodeObject *co;
    if (!sp_on || sp_busy || n < 1)
        Py_RETURN_NONE;
    co = (PyCodeObject *)args[0];
    if (sp_prefix) {
        Py_ssize_t l = PyUnicode_GET_LENGTH(sp_prefix);
        if (!PyUnicode_Check(co->co_filename) ||
            PyUnicode_Tailmatch(co->co_filename, sp_prefix, 0, l, -1) != 1)
            Py_RETURN_NONE;
    }
    sp_count++;
    if (sp_at && (sp_count == sp_at || (sp_every && sp_count > sp_at && (sp_count - sp_at) % sp_every == 0))) {
        if (sp_action == 1)
            PyErr_SetInterruptEx(SIGINT);
        else if (sp_action == 3) {
            PyObject *r;
            sp_busy = 1;
            if (!sp_gc) {
                PyObject *m = PyImport_ImportModule("gc");
                sp_gc = m ? PyObject_GetAttrString(m, "collect") : NULL;
                Py_XDECREF(m);
            }
            r = sp_gc ? PyObject_CallNoArgs(sp_gc) : NULL;
            sp_busy = 0;
            if (!r) return NULL;
            Py_DECREF(r);
        } else if (sp_action == 2 && sp_hook) {
            PyObject *r;
            sp_busy = 1;
            r = PyObject_CallOneArg(sp_hook, args[0]);
            sp_busy = 0;
            if (!r) return NULL;
            Py_DECREF(r);
        }
    }
    Py_RETURN_NONE;
}

/* sp_arm(prefix|None, action, at, every, hook|None) */
static PyObject *
sp_arm(PyObject *self, PyObject *args)
{
    PyObject *pre, *hook;
    Py_ssize_t at, every;
    int action;
    if (!PyArg_ParseTuple(args, "OinnO", &pre, &action, &at, &every, &hook)) return NULL;
    Py_XSETREF(sp_prefix, pre == Py_None ? NULL : Py_NewRef(pre));
    Py_XSETREF(sp_hook, hook == Py_None ? NULL : Py_NewRef(hook));
    sp_action = action; sp_at = at; sp_every = every; sp_count = 0; sp_busy = 0;
    sp_on = 1;
    Py_RETURN_NONE;
}

static PyObject *
sp_disarm(PyObject *self, PyObject *args)
{
    sp_on = 0;
    Py_CLEAR(sp_hook);
    return PyLong_FromSsize_t(sp_count);
}

static PyObject *
refcnt(PyObject *self, PyObject *o)
{
    /* the reference held by the argument vector is borrowed from the caller's stack */
    return PyLong_FromSsize_t(Py_REFCNT(o));
}

/* serve(request_fd, status_fd): the zygote.  Reads length-prefixed requests
   and forks a child for each; the child returns here with the request, the
   parent never runs Python code again, so that every child starts from the
   same state.  Reports "pid" and then "wait status" as 64-bit integers. */
static int
readn(int fd, void *p, size_t n)
{
    char *c = p;
    while (n) {
        ssize_t r = read(fd, c, n);
        if (r <= 0) {
            if (r < 0 && errno == EINTR) continue;
            return -1;
        }
        c += r; n -= r;
    }
    return 0;
}

static PyObject *
serve(PyObject *self, PyObject *args)
{
    int in, out;
    if (!PyArg_ParseTuple(args, "ii", &in, &out)) return NULL;
    for (;;) {
        uint64_t n;
        int64_t v;
        char *buf;
        pid_t pid;
        int st;
        if (readn(in, &n, 8) < 0) _exit(0);
        buf = malloc(n + 1);
        if (!buf || readn(in, buf, n) < 0) _exit(0);
        pid = fork();
        if (pid < 0) _exit(3);
        if (pid == 0) {
            PyObject *r;
            setpgid(0, 0);
            PyOS_AfterFork_Child();
            r = PyBytes_FromStringAndSize(buf, n);
            free(buf);
            close(in);
            close(out);
            return r;
        }
        free(buf);
        v = pid;
        if (write(out, &v, 8) != 8) _exit(0);
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
        v = st;
        kill(-pid, SIGKILL);
        if (write(out, &v, 8) != 8) _exit(0);
    }
}

/* ---- what CPython 3.12 objects refer to beyond what gc.get_referents tells ---- */

#define ADD(x) do { PyObject *_o = (PyObject *)(x); \
        if (_o && PyList_Append(l, _o) < 0) { Py_DECREF(l); return NULL; } } while (0)

static PyObject *
type_refs(PyObject *self, PyObject *o)
{
    PyTypeObject *t = (PyTypeObject *)o;
    PyObject *l;
    if (!PyType_Check(o)) { PyErr_SetString(PyExc_TypeError, "type"); return NULL; }
    if (!(l = PyList_New(0))) return NULL;
    if (t->tp_flags & _Py_TPFLAGS_STATIC_BUILTIN) {
        static_builtin_state *st = &PyInterpreterState_Get()->types.builtins[(size_t)t->tp_subclasses - 1];
        ADD(st->tp_dict);
        ADD(st->tp_subclasses);
    } else {
        ADD(t->tp_dict);
        ADD(t->tp_subclasses);
    }
    ADD(t->tp_mro);
    ADD(t->tp_bases);
    ADD(t->tp_cache);
    ADD(t->tp_base);
    if (t->tp_flags & Py_TPFLAGS_HEAPTYPE) {
        PyHeapTypeObject *h = (PyHeapTypeObject *)t;
        ADD(h->ht_name);
        ADD(h->ht_slots);
        ADD(h->ht_qualname);
        ADD(h->ht_module);
    }
    return l;
}

static PyObject *
code_refs(PyObject *self, PyObject *o)
{
    PyCodeObject *co = (PyCodeObject *)o;
    PyObject *l;
    if (!PyCode_Check(o)) { PyErr_SetString(PyExc_TypeError, "code"); return NULL; }
    if (!(l = PyList_New(0))) return NULL;
    if (co->_co_cached) {
        ADD(co->_co_cached->_co_code);
        ADD(co->_co_cached->_co_varnames);
        ADD(co->_co_cached->_co_cellvars);
        ADD(co->_co_cached->_co_freevars);
    }
    ADD(co->co_consts);
    ADD(co->co_names);
    ADD(co->co_exceptiontable);
    ADD(co->co_localsplusnames);
    ADD(co->co_localspluskinds);
    ADD(co->co_filename);
    ADD(co->co_name);
    ADD(co->co_qualname);
    ADD(co->co_linetable);
    ADD(co->co_weakreflist);
    return l;
}

static PyObject *
frame_refs(PyObject *self, PyObject *o)
{
    PyFrameObject *f = (PyFrameObject *)o;
    _PyInterpreterFrame *iv;
    PyObject *l, *back;
    int i;
    if (!PyFrame_Check(o)) { PyErr_SetString(PyExc_TypeError, "frame"); return NULL; }
    if (!(l = PyList_New(0))) return NULL;
    iv = f->f_frame;
    back = (PyObject *)PyFrame_GetBack(f);
    ADD(back);
    Py_XDECREF(back);
    ADD(f->f_trace);
    ADD(iv->f_funcobj);
    ADD(iv->f_code);
    ADD(iv->f_builtins);
    ADD(iv->f_globals);
    ADD(iv->f_locals);
    for (i = 0; i < iv->f_code->co_nlocalsplus; i++)
        ADD(iv->localsplus[i]);
    return l;
}

/* [(name, value), ...] of the variables of a frame, without f_locals */
static PyObject *
frame_vars(PyObject *self, PyObject *o)
{
    _PyInterpreterFrame *iv;
    PyObject *l;
    int i;
    if (!PyFrame_Check(o)) { PyErr_SetString(PyExc_TypeError, "frame"); return NULL; }
    if (!(l = PyList_New(0))) return NULL;
    iv = ((PyFrameObject *)o)->f_frame;
    for (i = 0; i < iv->f_code->co_nlocalsplus; i++)
        if (iv->localsplus[i]) {
            PyObject *t = PyTuple_Pack(2, PyTuple_GET_ITEM(iv->f_code->co_localsplusnames, i), iv->localsplus[i]);
            if (!t || PyList_Append(l, t) < 0) return NULL;
            Py_DECREF(t);
        }
    return l;
}

/* the dict of an instance if it is there as an object, without creating it */
static PyObject *
managed(PyObject *self, PyObject *o)
{
    return PyBool_FromLong(PyType_HasFeature(Py_TYPE(o), Py_TPFLAGS_MANAGED_DICT));
}

/* the dict of an instance: never created, except from a managed dict's values */
static PyObject *
dictof(PyObject *self, PyObject *o)
{
    PyObject **p = _PyObject_GetDictPtr(o);
    if (!p || !*p) Py_RETURN_NONE;
    return Py_NewRef(*p);
}

/* owners(list, dict) -> the objects of the list that have this __dict__ */
static PyObject *
owners(PyObject *self, PyObject *args)
{
    PyObject *l, *d, *r;
    Py_ssize_t i;
    if (!PyArg_ParseTuple(args, "O!O", &PyList_Type, &l, &d)) return NULL;
    r = PyList_New(0);
    for (i = 0; r && i < PyList_GET_SIZE(l); i++) {
        PyObject *o = PyList_GET_ITEM(l, i);
        PyObject **p = _PyObject_GetDictPtr(o);
        if (p && *p == d && PyList_Append(r, o) < 0) Py_CLEAR(r);
    }
    return r;
}

/* owner_map(list, into): into[address of __dict__] = [owners in the list] */
static PyObject *
owner_map(PyObject *self, PyObject *args)
{
    PyObject *l, *m;
    Py_ssize_t i;
    if (!PyArg_ParseTuple(args, "O!O!", &PyList_Type, &l, &PyDict_Type, &m)) return NULL;
    for (i = 0; i < PyList_GET_SIZE(l); i++) {
        PyObject *o = PyList_GET_ITEM(l, i), *k, *v;
        PyObject **p = _PyObject_GetDictPtr(o);
        if (!p || !*p) continue;
        if (!(k = PyLong_FromVoidPtr(*p))) return NULL;
        v = PyDict_GetItemWithError(m, k);
        if (v) {
            if (PyList_Append(v, o) < 0) { Py_DECREF(k); return NULL; }
        } else {
            if (PyErr_Occurred() || !(v = PyList_New(1))) { Py_DECREF(k); return NULL; }
            Py_INCREF(o);
            PyList_SET_ITEM(v, 0, o);
            if (PyDict_SetItem(m, k, v) < 0) { Py_DECREF(k); Py_DECREF(v); return NULL; }
            Py_DECREF(v);
        }
        Py_DECREF(k);
    }
    Py_RETURN_NONE;
}

static PyMethodDef methods[] = {
    {"owner_map", owner_map, METH_VARARGS, 0},
    {"owners", owners, METH_VARARGS, 0},
    {"install", install, METH_NOARGS, 0},
    {"set_mode", set_mode, METH_VARARGS, 0},
    {"stats", stats, METH_NOARGS, 0},
    {"check", check, METH_NOARGS, 0},
    {"blocks", blocks, METH_O, 0},
    {"serial", get_serial, METH_NOARGS, 0},
    {"is_live", is_live, METH_O, 0},
    {"call", call, METH_VARARGS, 0},
    {"last", last, METH_NOARGS, 0},
    {"suspend", suspend, METH_O, 0},
    {"safepoint", (PyCFunction)(void *)safepoint, METH_FASTCALL, 0},
    {"sp_arm", sp_arm, METH_VARARGS, 0},
    {"sp_disarm", sp_disarm, METH_NOARGS, 0},
    {"refcnt", refcnt, METH_O, 0},
    {"serve", serve, METH_VARARGS, 0},
    {"type_refs", type_refs, METH_O, 0},
    {"code_refs", code_refs, METH_O, 0},
    {"frame_refs", frame_refs, METH_O, 0},
    {"frame_vars", frame_vars, METH_O, 0},
    {"dictof", dictof, METH_O, 0},
    {"managed", managed, METH_O, 0},
    {0}
};

static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "simrt", 0, -1, methods};

PyMODINIT_FUNC PyInit_simrt(void) { return PyModule_Create(&def); }
