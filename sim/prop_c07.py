"""C07: shortest paths, through histories of graph changes, against an
independent breadth first search over an independent reading of the graph;
every label is followed on the live objects."""
import gc, sys, types
import simrt, interp, graphworld as gw
from simctx import Violation, HarnessError, need
from prop_c04 import name

MAXPATHS = 150
# kinds of objects whose references always have a label
LABELLED = {list, tuple, dict, set, frozenset, types.FunctionType, gw.types.CellType, types.ModuleType, types.FrameType,
            types.MappingProxyType, type}


def setup():
    global hp, V, P
    from guppy import hpy
    gc.collect()
    gc.disable()
    hp = hpy()
    V = hp.View
    P = hp._parent.Path if hasattr(hp._parent, 'Path') else V._parent.Path
    gw.basics()
    V.root = H = [[{}]]
    hp.heap()
    p = hp.iso(H[0][0]).shpaths
    repr(p), str(p[0]), p.numpaths, list(p), p.avoided(0), repr(hp.iso({}).shpaths)
    P.shpgraph([hp.iso(H[0])])
    hp.Nothing.shpaths, hp.iso([], {}).brief, hp.iso([]).brief
    interp.setup()
    V.root = V.heapyc.RootState


def fault(ctx, at, f):
    """run f with a collection or an interrupt in it; an interrupted f is run again"""
    if not at:
        return f()
    interp.arm(interp.SIGINT if at[2] else interp.GC, at[0], 0 if at[2] else at[1])
    n = 0
    try:
        r = f()
        for _ in range(3):      # a signal from the last line arrives here
            pass
        return r
    except KeyboardInterrupt:
        ctx.fault('interrupt')
    finally:
        n = interp.disarm()
        if n >= at[0] and not at[2]:
            ctx.fault('gc_inside')
    return f()


def follow(w, o, rel, nxt):
    """does the label lead from o to nxt?"""
    c, r = rel.code, rel.r
    if c == 1:
        if isinstance(o, type) and type(r) is str:
            if r == '__dict__':
                return True
            try:
                return type.__getattribute__(o, r) is nxt or vars(o).get(r) is nxt
            except AttributeError:
                return vars(o).get(r) is nxt
        d = simrt.dictof(o)
        if r == '__dict__' and d is nxt:
            return True
        if d is not None and type(r) is str and dict.get(d, r) is nxt:
            return True
        if type(o) is types.FunctionType and r == '__module__':
            return True
        if type(r) is not str:
            return any(k is r and v is nxt for k, v in dict.items(d))
        if type(o) is gw.FR and r == 'f_locals':
            return True
        if type(o) is gw.FR and r == 'f_builtins' or type(o) is types.CodeType:
            return True
        if not hasattr(o, r) and r in getattr(type(o), '__slots__', ()):
            # the descriptor was deleted
            return True
        return getattr(o, r, None) is nxt
    if c == 2:
        if isinstance(o, (list, tuple)):
            return type(r) is int and 0 <= r < len(o) and o[r] is nxt
        if isinstance(o, (dict, gw.PROXY)):
            return any(k is r and v is nxt for k, v in o.items())
        return False
    if c in (3, 5):
        d = o if c == 3 else simrt.dictof(o)
        ks = list(d)
        return type(r) is int and 0 <= r < len(ks) and ks[r] is nxt
    if c == 4:
        if r == 'ob_type':
            return type(o) is nxt
        if r.startswith('edges['):
            # of the internal array, which may not be sorted yet
            return any(x is nxt for x in w.refs(o))
        if r == 'mapping':
            return o == nxt
        if r == 'ht_slots':
            return type(nxt) is tuple
        return True
    if c == 6:
        return any(n == r and v is nxt for n, v in simrt.frame_vars(o))
    if c == 7:
        return any(n == r and type(v) is gw.CELL and any(x is nxt for x in w.refs(v)) for n, v in simrt.frame_vars(o))
    if c == 8:
        return True
    if c == 9:
        l = list(o)
        return 0 <= r < len(l) and l[r] is nxt
    if c == 0:
        return o is nxt
    return False


def labelled(o):
    t = type(o)
    return t in LABELLED or (t.__name__[0] == 'X' and t.__module__ == gw.__name__)


def bfs(w, src, dsts, avoid, edges):
    """-> preds (id -> {pred id}), objects, for each dst set the nearest members, levels"""
    av = {id(o) for o in avoid}
    ed = {(id(a), id(b)) for a, b in edges}
    objs = {id(o): o for o in src}
    level = {id(o): 0 for o in src if id(o) not in av}
    cur = [o for o in src if id(o) in level]
    for i in av:
        level.setdefault(i, None)
    preds = {}
    out = [None] * len(dsts)
    n = 0
    while cur and any(x is None for x in out):
        n += 1
        nxt = {}
        for o in cur:
            if w.hidden(o):
                continue
            for r in w.refs(o):
                i = id(r)
                if (id(o), i) in ed or (i in level and level[i] != n):
                    continue
                if i in level and level[i] is None:
                    continue
                if i not in level:
                    if w.hidden(r):
                        continue
                    level[i] = n
                    objs[i] = nxt[i] = r
                    preds[i] = {}
                preds[i][id(o)] = preds[i].get(id(o), 0) + 1
        cur = list(nxt.values())
        for k, D in enumerate(dsts):
            if out[k] is None:
                d = [o for o in D if id(o) in nxt]
                if d:
                    out[k] = d
    return preds, objs, [o or [] for o in out], level


def mult(w, o, r, n):
    """how many labels there are for the n references from o to r"""
    if not labelled(o):
        return max(1, sum(map(len, w.hv.relate(o, r))))
    d = simrt.dictof(o)
    if type(o) is gw.PROXY:
        d = w.refs(o)[0]
    if d is not None and not isinstance(o, type) and type(o) is not dict:
        # an attribute that is referred to directly as well
        n += sum((k is r) + (v is r) for k, v in dict.items(d))
    if type(o) is gw.FR:
        for v, c in simrt.frame_vars(o):
            if v in o.f_code.co_cellvars + o.f_code.co_freevars and type(c) is gw.CELL and any(x is r for x in w.refs(c)):
                n += 1
    return n


def count(w, preds, objs, level, dst):
    """number of shortest paths, references counted separately"""
    memo = {}
    todo = sorted({i for i in level if level[i] is not None}, key=lambda i: level[i])
    for i in todo:
        memo[i] = 1 if level[i] == 0 else sum(memo[p] * mult(w, objs[p], objs[i], k) for p, k in preds[i].items())
    return sum(memo[id(o)] for o in dst)


def node_paths(preds, level, objs, dst, limit):
    """id tuples of all shortest paths"""
    out = []
    todo = [(id(o),) for o in dst]
    while todo:
        t = todo.pop()
        if level[t[0]] == 0:
            out.append(t)
            if len(out) > limit:
                return None
        else:
            todo += [(p,) + t for p in preds[t[0]]]
    return set(out)


class RetPath:
    """one reported path, checked"""


def check_path(w, p, pos, starts, ends, what):
    """-> (ids, labels)"""
    seq = p.path
    need(len(seq) % 2 == 1, 'bad-path', '%s: a path of %d parts' % (what, len(seq)))
    need(p.index == pos, 'wrong-index', '%s: path %d has index %d' % (what, pos, p.index))
    ids, labs = [], []
    for k in range(0, len(seq), 2):
        s = seq[k].nodes
        need(len(s) == 1, 'bad-path', '%s: a step of a path is %d objects' % (what, len(s)))
        o = next(iter(s))
        ids.append(id(o))
        if k:
            rel = seq[k - 1]
            labs.append((rel.code, str(rel)))
            if rel.code == -1:
                need(not labelled(q), 'no-label', lambda: '%s: no label for the reference from %s to %s' % (what, name(q), name(o)))
                w.ctx.probe('nolabel')
            else:
                need(follow(w, q, rel, o), 'wrong-label', lambda: '%s: label %s of %s does not lead to %s' % (
                    what, str(rel), name(q), name(o)))
        q = o
    need(p.src.nodes == seq[0].nodes and p.tgt.nodes == seq[-1].nodes, 'bad-path', '%s: wrong ends of a path' % what)
    need(ids[0] in starts, 'bad-path', '%s: path starts elsewhere' % what)
    need(ids[-1] in ends, 'bad-path', '%s: path ends elsewhere' % what)
    return tuple(ids), tuple(labs)


def check_paths(w, ps, preds, objs, dst, level, op, what):
    n = count(w, preds, objs, level, dst)
    starts = {i for i in level if level[i] == 0}
    ends = {id(o) for o in dst}
    w.ctx.state(what, min(n, 20), (level[id(dst[0])] if dst else 0) if not dst or level[id(dst[0])] < 10 else 10)
    w.ctx.log(what, n)
    how = op['how']
    if how % 4 == 1:
        need(ps.numpaths == n, 'wrong-count', lambda: '%s: numpaths is %d, there are %d' % (what, ps.numpaths, n))
    if n > MAXPATHS:
        need(ps.numpaths == n, 'wrong-count', lambda: '%s: numpaths is %d, there are %d' % (what, ps.numpaths, n))
        want = None
        got = []
        for k, i in enumerate(op['ix']):
            i %= n
            a = check_path(w, ps[i], i, starts, ends, what)
            b = check_path(w, ps[i - n], i, starts, ends, what)
            need(a == b, 'unstable', '%s: paths[%d] is not paths[%d]' % (what, i, i - n))
            need(all(q in preds[p] for q, p in zip(a[0], a[0][1:])), 'too-long', '%s: not a shortest path' % what)
            # and the following ones
            for j, p in enumerate(ps.iter(i, i + 3)):
                b = check_path(w, p, i + j, starts, ends, what)
                if not j:
                    need(a == b, 'unstable', '%s: iter(%d) does not start with paths[%d]' % (what, i, i))
            p = None
            need(j == min(2, n - 1 - i), 'wrong-iter', '%s: iter(%d, %d) gave %d paths' % (what, i, i + 3, j + 1))
        return
    want = node_paths(preds, level, objs, dst, 10 ** 6)
    got = [check_path(w, p, k, starts, ends, what) for k, p in enumerate(ps)]
    have = {}
    for g in got:
        need(g not in have, 'duplicate', lambda: '%s: a path is listed twice: %s' % (what, g[1]))
        have[g] = 1
    seqs = {g[0] for g in got}
    if seqs != want:
        a = seqs - want
        if a:
            raise Violation('too-long', '%s: lists a path that is not a shortest one: %s' % (
                what, [name(objs[i]) if i in objs else '?' for i in sorted(a)[0]]))
        raise Violation('missing', '%s: lacks a path: %s' % (what, [name(objs[i]) for i in sorted(want - seqs)[0]]))
    need(len(got) == n, 'wrong-number', lambda: '%s: %d paths listed, there are %d' % (what, len(got), n))
    need(ps.numpaths == len(got), 'wrong-count', lambda: '%s: numpaths is %d, %d are listed' % (what, ps.numpaths, len(got)))
    n = len(got)
    if op.get('at') and (op['at'][2] or op['how'] % 4 < 2):
        again = fault(w.ctx, op['at'], lambda: [str(p) for p in ps])
        # a collection may change the size of a source, and the sources are ordered by size
        got = [check_path(w, p, k, starts, ends, what) for k, p in enumerate(ps)]
        need(sorted(again) == sorted(str(p) for p in ps) and set(got) == set(have), 'unstable',
             '%s: the paths differ after a fault while they were read' % what)
    for i in op['ix']:
        i = i % (n + 3) - 1
        if 0 <= i < n:
            need(check_path(w, ps[i], i, starts, ends, what) == got[i], 'unstable', lambda: '%s: paths[%d] is not the %d:th path' % (what, i, i))
            need(check_path(w, ps[i - n], i, starts, ends, what) == got[i], 'unstable', lambda: '%s: paths[%d] is another path' % (what, i - n))
            sub = [check_path(w, p, i + k, starts, ends, what) for k, p in enumerate(ps.iter(i, i + 2))]
            need(sub == got[i:i + 2], 'unstable', '%s: iter(%d, %d) gives other paths' % (what, i, i + 2))
        else:
            for k in (i, -n - 1) if i >= n else (-n - 1,):
                try:
                    ps[k]
                except IndexError:
                    pass
                else:
                    raise Violation('too-much', '%s: paths[%d] of %d paths' % (what, k, n))
    if how % 3 == 0:
        need([check_path(w, p, k, starts, ends, what) for k, p in enumerate(ps)] == got, 'unstable', '%s: read again, the paths differ' % what)
    if how % 5 == 0 and n < 30:
        # as printed
        ls = []
        p = ps
        txt = repr(p)
        while 1:
            for l in txt.split('\n'):
                h = l.split(':')[0].strip()
                if h.isdigit():
                    ls.append(int(h))
            if 'more paths' not in txt or 'No more' in txt or len(ls) > n:
                break
            p = p.more
            txt = repr(p)
        need(ls == list(range(n)), 'wrong-print', lambda: '%s: printed path numbers %r of %d' % (what, ls, n))
        p = None


def run(plan, ctx):
    cfg = plan['cfg']
    simrt.set_mode(cfg['mode'], cfg['mseed'])
    w = gw.GW(ctx, V, hp, cfg)
    w.H = [w.R, 'root']
    V.root = w.H
    old = []
    for op in plan['ops']:
        ctx.step()
        k = op[0]
        if w.do(op):
            ctx.log(*op, len(w.R))
            continue
        if k == 'stale':
            # a result that was kept while the graph changed: may be outdated but must not harm
            if old:
                p = old.pop()
                try:
                    p.numpaths, [str(x) for x in p.iter(0, 50)], repr(p)
                except Exception as e:
                    ctx.probe('stale_error')
                p = None
            continue
        query(w, ctx, op, old)
    del old[:]
    w.R.clear()
    w.H.clear()
    gc.collect()
    simrt.check()


def query(w, ctx, op, old):
    k, a = op[0], op[1]
    if a.get('at') and a['how'] % 4 < 2:
        # a collection later on, while paths are read, finds nothing that changes the graph
        gc.collect()
    ns = [o for o in w.nodes() if not w.hidden(o)]

    def pick(l):
        return list({id(o): o for o in (ns[i % len(ns)] for i in l)}.values())
    dst, src, av = pick(a['dst']), pick(a['src']), pick(a['av'])
    if a['leaf'] >= 0:
        # something that is not a node of the world
        o = dst[0]
        rs = [r for r in w.refs(o) if not w.hidden(r)]
        if rs:
            dst = [rs[a['leaf'] % len(rs)]]
        rs = o = None
    edges = []
    for i, j in a['ed']:
        o = ns[i % len(ns)]
        rs = w.refs(o)
        if rs:
            edges.append((o, rs[j % len(rs)]))
        rs = o = None
    ns = None
    if k == 'sp':
        D = hp.idset(dst)
        ps = fault(ctx, a.get('at'), lambda: D.shpaths if a['how'] % 2 else D.sp)
        D = None
        preds, objs, (d,), level = bfs(w, [w.H], [dst], [], [])
    elif k == 'gsp':
        kw = {}
        if src:
            kw['src'] = hp.idset(src)
        if av:
            kw['avoid_nodes'] = hp.idset(av)
        if edges:
            kw['avoid_edges'] = edges if a['how'] % 2 else V.nodegraph(edges)
        D = hp.idset(dst)
        ps = fault(ctx, a.get('at'), lambda: D.get_shpaths(**kw))
        kw = D = None
        preds, objs, (d,), level = bfs(w, src or [w.H], [dst], av, edges)
    elif k == 'graph':
        sets = [[o] for o in dst] + [dst]
        pg = P.shpgraph([hp.idset(s) for s in sets], hp.idset(src) if src else None)
        need(len(pg) == len(sets), 'wrong-count', 'shpgraph has %d results for %d sets' % (len(pg), len(sets)))
        preds, objs, ds, level = bfs(w, src or [w.H], sets, [], [])
        for i, d in enumerate(ds):
            check_paths(w, pg[i], preds, objs, d, level, a, 'shpgraph')
        pg = sets = ds = d = objs = None
        return
    elif k == 'avoid':
        # shortest paths, then those that avoid some of their edges, repeatedly
        ps = hp.idset(dst).shpaths
        preds, objs, (d,), level = bfs(w, [w.H], [dst], [], [])
        edges = []
        s = [w.H]
        for lv in a['ed']:
            if not d:
                break
            depth = level[id(d[0])]
            lv = lv[0] % depth
            # the edges at this level of the shortest paths
            cur = {id(o) for o in d}
            for n in range(depth, lv, -1):
                e = {(p, c) for c in cur for p in preds[c]}
                cur = {p for p, c in e}
            first = cur
            while first and level[next(iter(first))]:
                first = {p for c in first for p in preds[c]}
            edges += [(objs[p], objs[c]) for p, c in e]
            s = [objs[i] for i in first]
            ps = ps.avoided(lv)
            preds, objs, (d,), level = bfs(w, s, [d], [], edges)
        cur = e = first = s = None
    else:
        raise HarnessError(repr(op))
    check_paths(w, ps, preds, objs, d, level, a, k)
    if a['how'] % 7 == 0:
        old.append(ps)
        del old[:-2]
    if d and a['how'] % 2 and k != 'avoid':
        # the object sets along the paths
        on = {id(o) for o in d}
        sets = [on]
        while level[next(iter(on))]:
            on = {p for i in on for p in preds[i]}
            sets.append(on)
        got = [{id(o) for o in s.nodes} for s in ps.sets]
        need(got == sets[::-1], 'wrong-sets', '%s: the sets along the paths are wrong' % k)
    ps = preds = objs = d = dst = src = av = edges = None


# ---------------------------------------------------------------------

def gen(rng, tier):
    cfg = dict(mode=rng.choice([0, 0, 1, 2]), mseed=rng.randrange(1 << 30), deep=rng.choice([3, 20, 50, 50, 1500]))
    wts, kinds = gw.swarm(rng)
    if rng.random() < .5:
        kinds = [k for k in kinds if k not in ('class', 'inst', 'slots', 'listsub', 'dictsub', 'instdict')] or ['list', 'dict']
    if cfg['deep'] > 1000 and rng.random() < .7:
        kinds = kinds + ['deep'] * 3
    ops = []

    def r():
        return rng.choice([0, rng.randrange(4), rng.randrange(12), rng.randrange(60), rng.randrange(1000)])
    def q(dst, src=(), leaf=-1):
        return ['sp', dict(dst=dst, src=list(src), av=[], ed=[], leaf=leaf, ix=[], how=rng.randrange(420), at=None)]
    x = rng.random()
    if x < .04:
        # a class whose base is replaced and dies between queries
        ops += [['new', 'class', 0, 0, 0, 0], ['new', 'inst', 0, r(), r(), 0], ['rebase', 0, 0, 0], ['new', 'list', 0, 1, 0, 0],
                ['new', 'slots', 0, r(), r(), 1]]
        ops += [q([i], leaf=rng.randrange(4)) for i in range(1, 6)]
        ops += [['rebase', rng.randrange(4), 0, 0] for _ in range(3)] + [['gc'], ['churn', 3, 5]]
        ops += [q([i], leaf=rng.randrange(4)) for i in range(1, 6)]
    elif x < .08:
        # garbage that is used again while it is cleared
        ops += [['new', rng.choice(gw.HKINDS + ['nodeset', 'nodegraph']), 0, rng.randrange(2), rng.randrange(2), rng.randrange(64)],
                ['new', 'frame', rng.randrange(3), rng.randrange(4), rng.randrange(4), 0], ['new', 'frame', r(), r(), r(), 0]]
        ops += [q([rng.randrange(8)]), ['clear', 0], ['gc'], ['new', 'list', 0, 0, 0, 0], q([1])]
    elif x < .1:
        ops += [['new', 'module', 0, 0, 0, 0], ['new', 'inst', 0, r(), r(), 0]] + [['unlink', i, k] for i in range(2, 5) for k in range(3)]
        ops += [['gsp', dict(dst=[r()], src=[r() % 5, r() % 5], av=[], ed=[], leaf=-1, ix=[], how=0, at=None)] for _ in range(4)]
    for _ in range(rng.choice([1, 2, 4, 6])):
        ops += gw.genops(rng, rng.choice([1, 3, 6, 10, 20]), kinds, wts)
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.choice(['sp', 'sp', 'gsp', 'gsp', 'graph', 'avoid'])
            ops.append([k, dict(dst=[r() for _ in range(rng.choice([1, 1, 1, 2, 4]))],
                                src=[r() for _ in range(rng.choice([0, 0, 1, 2]))],
                                av=[r() for _ in range(rng.choice([0, 0, 1, 3]))],
                                ed=[[r(), rng.randrange(20)] for _ in range(rng.choice([0, 1, 2, 4]))],
                                leaf=rng.choice([-1, -1, rng.randrange(10)]),
                                ix=[rng.choice([0, 1, 2, rng.randrange(10), rng.randrange(1 << 20)]) for _ in range(rng.choice([0, 1, 3]))],
                                how=rng.randrange(420),
                                at=None if rng.random() < .7 else [rng.choice([1, rng.randrange(20), rng.randrange(300)]), rng.choice([0, 0, 0, 7, 30]) if cfg['deep'] < 1000 else 0, rng.randrange(2)])])
            if rng.random() < .1:
                ops.append(['stale'])
    return dict(cfg=cfg, ops=ops)


def shrinks(plan):
    c = plan['cfg']
    for d in (3, 20):
        if c['deep'] > d:
            yield dict(plan, cfg=dict(c, deep=d))
    if c['mode']:
        yield dict(plan, cfg=dict(c, mode=0))
    for i, op in enumerate(plan['ops']):
        if len(op) > 1 and isinstance(op[1], dict):
            for f in ('src', 'av', 'ed', 'ix', 'dst'):
                l = op[1][f]
                for j in range(len(l)):
                    if len(l) > 1 or f != 'dst':
                        q = dict(op[1])
                        q[f] = l[:j] + l[j + 1:]
                        yield dict(plan, ops=plan['ops'][:i] + [[op[0], q]] + plan['ops'][i + 1:])
            if op[1].get('at'):
                yield dict(plan, ops=plan['ops'][:i] + [[op[0], dict(op[1], at=None)]] + plan['ops'][i + 1:])
            if op[1]['leaf'] >= 0:
                yield dict(plan, ops=plan['ops'][:i] + [[op[0], dict(op[1], leaf=-1)]] + plan['ops'][i + 1:])
