"""Canonical summaries.

A summary is a DAG of plain tuples, independent of ids and of the run: every output
of an entry point (field, return value, event guard, event argument) as a term over
named leaves.  Two summaries are compared by structural hash after canonical ordering;
if the hashes differ, `differ` looks for a valuation of the leaves on which the two
terms disagree -- a difference of shape alone is not reported."""
import hashlib, math, random, struct, time
from terms import *
from mem import *
import mem as mm
import fast

OPAQUE = {'fr', 'mu', 'mub', 'hv', 'obits', 'snp', 'cmp', 'strlen', 'io', 'undefb', 'frb'}


def strinit(o):
    """the characters of a constant string object"""
    g = o.tag if o.kind == 'global' else None
    if g is not None and getattr(g, 'const', False) and getattr(g, 'init', None) is not None:
        if g.init[0] == 'str':
            return bytes(g.init[1])
        if g.init[0] == 'zero' and g.name.startswith('.str'):
            return bytes(g.ty.size())
    return None


def olabel(o, d=0):
    if d > 8:
        return '?deep'
    if o is NULLOBJ:
        return 'NULL'
    if getattr(o, 'label', None):
        return o.label
    t = strinit(o)
    if t is not None and o.name.startswith('@.'):
        return repr(t)[1:]
    p = getattr(o, 'par', None)
    if p is not None:
        po, off = p
        f = po.lay.get(off.c) if (po.lay and not off.t) else None
        return '(%s.%s)*' % (olabel(po, d + 1), f[0] if f else (off.c if not off.t else 'sym'))
    if o.kind == 'global' or o.name.startswith('@'):
        return o.name
    return 'local'


class Dag:
    """hash-consed nodes in dump order"""

    def __init__(s):
        s.nodes = []
        s.hash = []
        s.ix = {}
        s.opq = []       # opaque?
        s.und = []
        s.fr = []        # depths of the open loops a node refers to

    def add(s, node, kids, opaque=False, und=False):
        h = hashlib.md5(repr((node[0],) + tuple(x if not isinstance(x, Ref) else s.hash[x.i] for x in node[1:])).encode()).hexdigest()
        i = s.ix.get(h)
        if i is None:
            i = len(s.nodes)
            s.nodes.append(node)
            s.hash.append(h)
            s.opq.append(opaque or any(s.opq[k] for k in kids))
            s.und.append(und or any(s.und[k] for k in kids))
            s.ix[h] = i
            if node[0] in ('kv', 'mv'):
                f = frozenset((node[1],))
            else:
                f = frozenset((node[1],)) if node[0] == 'sa' else NONE
                for k in kids:
                    if s.fr[k]:
                        f = f | s.fr[k]
                if f and node[0] in ('fold', 'atv'):
                    f = frozenset(x for x in f if x < node[1])
            s.fr.append(f)
        return i


class Ref:
    __slots__ = ('i',)

    def __init__(s, i):
        s.i = i

    def __repr__(s):
        return '#%d' % s.i


class Ctx:
    """an open loop while dumping: its variables in order of first use"""
    __slots__ = ('depth', 'uid', 'mus', 'ix', 'm', 'up', 'extra', 'vn', 'vis')

    def __init__(s, uid, up):
        s.uid, s.up = uid, up
        s.depth = up.depth + 1 if up is not None else 0
        s.mus, s.ix, s.m, s.extra = [], {}, {}, {}
        # open loops that can be meant here: those inside loop uid are hidden by it
        s.vis = {}
        if up is not None:
            for u, c in up.vis.items():
                L = mm.LOOPS.get(u)
                if L is None or uid not in L['up']:
                    s.vis[u] = c
        s.vis[uid] = s

    def index(s, a):
        i = s.ix.get(a.id)
        if i is None:
            i = s.ix[a.id] = len(s.mus)
            s.mus.append(a)
        return i


def head_content(a):
    import absint
    return absint.head_content(a)


def collect_all(x, op):
    """all atoms of a kind in a term"""
    out, seen, todo = [], set(), [x]
    while todo:
        y = todo.pop()
        if isinstance(y, (frozenset, tuple)):
            todo.extend(y)
        elif isinstance(y, Ptr):
            todo.append(y.off)
        elif isinstance(y, PIte):
            todo += [y.c, y.a, y.b]
        elif isinstance(y, (Lin, C, T)) and id(y) not in seen:
            seen.add(id(y))
            if isinstance(y, T) and y.op == op:
                out.append(y)
            if isinstance(y, Lin):
                todo.extend(a for a, _ in y.t)
            else:
                todo.extend(y.a)
    return out


NONE = frozenset()
COMM = {'and', 'or', 't:mul', 't:fmul', 't:and', 't:or', 't:xor'}


class KAT:
    """the counter of a loop"""
    op = 'k'
    id = None

    def __init__(s, u):
        s.a = (u,)


class Dumper:
    def __init__(s):
        s.d = Dag()
        s.m = {}
        s.on = {}
        s.cx = None
        s.folds = {}
        s.evd = 0
        s.busy = set()
        s.bctx = {}
        s.selfref = set()
        s.rw, s.fl, s.cl, s.hr = {}, {}, {}, {}

    def mk(s, op, *kids, lit=(), opaque=False, und=False, comm=False):
        ks = list(kids)
        if comm:
            ks.sort(key=lambda k: s.d.hash[k])
        return s.d.add((op,) + tuple(lit) + tuple(Ref(k) for k in ks), ks, opaque, und)

    def lit(s, op, *l, opaque=False, und=False):
        return s.d.add((op,) + l, (), opaque, und)

    def raw(s, x):
        """loops (and carried values) a term mentions"""
        if isinstance(x, (Lin, T, C)):
            r = s.rw.get(x)
            if r is not None:
                return r
            s.rw[x] = NONE
            if isinstance(x, Lin):
                ks = [a for a, _ in x.t]
            else:
                ks = x.a
            if isinstance(x, T) and x.op == 'hv' and s.res(x) is not None:
                r = s.raw(s.res(x))
            elif isinstance(x, T) and x.op in ('k', 'mu', 'mub'):
                r = frozenset((x.a[0],))
            elif isinstance(x, T) and x.op in ('sy', 'sx'):
                r = frozenset((('y', x.id),))
            elif isinstance(x, T) and x.op in ('atv', 'sf'):
                u = x.a[0]
                r = frozenset().union(*[s.raw(y) for y in x.a[2:]]) - {u} | s.raw(x.a[1]) | {('x', u)}
                if x.op == 'sf':
                    r -= {('y', x.a[4]), ('y', x.a[6])}
            else:
                if isinstance(x, T) and x.op == 'ev':
                    r = frozenset(x.a[2])
                else:
                    r = NONE
                for y in ks:
                    q = s.raw(y)
                    if q:
                        r = r | q
            s.rw[x] = r
            return r
        if isinstance(x, (frozenset, tuple)):
            r = NONE
            for y in x:
                q = s.raw(y)
                if q:
                    r = r | q
            return r
        if isinstance(x, Ptr):
            return s.raw(x.off)
        if isinstance(x, PIte):
            return s.raw(x.c) | s.raw(x.a) | s.raw(x.b)
        return NONE

    def res(s, a):
        """content of a havoced object at the head of the current iteration (None: not known)"""
        r = s.hr.get(a, s)
        if r is not s:
            return r
        s.hr[a] = None
        if a.a[0] not in mm.HVREC:
            return None
        # everything it depends on, resolved first; a cycle has no closed form
        val, todo, n = {}, [a], 0
        while todo:
            b = todo.pop()
            if b in val or n > 60:
                continue
            n += 1
            v = val[b] = head_content(b) if b.a[0] in mm.HVREC else None
            if v is not None:
                todo += collect_all(v, 'hv')
        reach = {b: set(collect_all(v, 'hv')) if v is not None else set() for b, v in val.items()}
        for b, v in val.items():
            if b in s.hr and b is not a:
                continue
            seen, todo = set(), list(reach[b])
            while todo:
                c = todo.pop()
                if c not in seen:
                    seen.add(c)
                    todo += reach.get(c, ())
            s.hr[b] = None if b in seen or n > 60 else v
        return s.hr[a]

    def floop(s, u):
        """what the recurrences of loop u mention"""
        r = s.fl.get(u)
        if r is None:
            s.fl[u] = NONE
            L = mm.LOOPS.get(u)
            r = NONE
            if L is not None and L['back'] is not None:
                r = s.raw(L['back'])
                for a, b in L['vars'].values():
                    r = r | s.raw(a) | s.raw(b)
                # loops inside u are bound by it
                r = frozenset(v for v in r if v != u and not s.within(v, u))
            s.fl[u] = r
        return r

    def within(s, v, u):
        if isinstance(v, tuple):
            if v[0] != 'x':
                return False
            v = v[1]
            if v == u:
                return True
        L = mm.LOOPS.get(v)
        return L is not None and u in L['up']

    def home(s, x):
        """innermost open loop the term depends on"""
        rs = s.raw(x)
        if not rs:
            return None
        opn = set(s.cx.vis) if s.cx is not None else set()
        c = s.cx
        while c is not None:
            opn.update(('y', i) for i in c.extra)
            c = c.up
        need, seen = set(), set()
        todo = list(rs)
        while todo:
            u = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            if u in opn:
                need.add(u)
            elif isinstance(u, tuple):
                if u[0] == 'x':
                    todo.extend(s.floop(u[1]))
            else:
                todo.extend(s.floop(u))
        c = s.cx
        while c is not None:
            if s.cx.vis.get(c.uid) is c and c.uid in need or any(('y', i) in need for i in c.extra):
                return c
            c = c.up
        return None

    def dump(s, x):
        key = id(x)
        if s.cx is None:
            m = s.m
            r = m.get(key)
            if r is None:
                r = s._dump(x)
                m[key] = r
                m[('keep', key)] = x
            return r
        m = s.cx.m
        r = m.get(key)
        if r is None:
            c = s.cx
            h = s.home(x)
            s.cx = h
            try:
                m2 = s.m if h is None else h.m
                r = m2.get(key)
                if r is None:
                    r = s._dump(x)
                    m2[key] = r
                    m2[('keep', key)] = x
            finally:
                s.cx = c
            m[key] = r
            m[('keep', key)] = x
        return r

    def loopvar(s, a):
        """a loop counter or loop-carried value"""
        uid = a.a[0]
        c = s.cx.vis.get(uid) if s.cx is not None else None
        if c is not None:
            return s.lit('kv', c.depth) if a.op == 'k' else s.lit('mv', c.depth, c.index(a))
        L = mm.LOOPS.get(uid)
        if L is None or L['back'] is None or a.op != 'k' and a.id not in L['vars']:
            return None
        c = s.closed(uid)
        key = (id(c), a.id if a.op != 'k' else None)
        r = s.folds.get(key)
        if r is None:
            st = [] if a.op == 'k' else [s.lit('mv', c.depth, c.index(a))]
            f, st = s.slice(c, st, True)
            r = s.mk('kx', f) if a.op == 'k' else s.mk('mx', f)
            s.folds[key] = r
        return r

    def closed(s, uid):
        """the context in which the recurrences of a finished loop are dumped"""
        key = (uid, id(s.cx))
        c = s.cl.get(key)
        if c is None:
            c = s.cl[key] = Ctx(uid, s.cx)
            c.vn = {}
        return c

    def vnode(s, c, k):
        """(initial, next) of carried value k of context c"""
        r = c.vn.get(k)
        if r is None:
            a = c.mus[k]
            v = c.extra.get(a.id) or mm.LOOPS[c.uid]['vars'].get(a.id)
            if v is None:
                r = (s.lit('opq', 'mu', 0, False, opaque=True),) * 2
            else:
                sv = s.cx
                s.cx = c
                nx = s.dump(v[1])
                s.cx = c.up
                ini = s.dump(v[0])
                s.cx = sv
                r = (ini, nx)
            c.vn[k] = r
        return r

    def slice(s, c, starts, cond):
        """fold with the carried values the given nodes need (renumbered in order of use);
        returns it and the renumbered nodes"""
        d, D = c.depth, s.d
        order, ix, seen = [], {}, set()

        def scan(i):
            st = [i]
            while st:
                i = st.pop()
                if i in seen or d not in D.fr[i]:
                    continue
                seen.add(i)
                n = D.nodes[i]
                if n[0] == 'mv' and n[1] == d:
                    if n[2] not in ix:
                        ix[n[2]] = len(order)
                        order.append(n[2])
                    continue
                st.extend(x.i for x in n[:0:-1] if isinstance(x, Ref))
        for i in starts:
            scan(i)
        back = None
        if cond:
            back = c.vn.get('back')
            if back is None:
                sv = s.cx
                s.cx = c
                back = c.vn['back'] = s.dump(mm.LOOPS[c.uid]['back'])
                s.cx = sv
            scan(back)
        q = 0
        vs = []
        while q < len(order):
            v = s.vnode(c, order[q])
            vs.append(v)
            scan(v[1])
            q += 1
        memo = {}
        R = lambda i: s.renum(i, d, ix, memo)
        f = s.mk('fold', R(back) if cond else s.lit('T'), *([v[0] for v in vs] + [R(v[1]) for v in vs]), lit=(d, len(vs)))
        return f, [R(i) for i in starts]

    def renum(s, i, d, ix, memo):
        D = s.d
        todo = [i]
        while todo:
            x = todo[-1]
            if x in memo:
                todo.pop()
                continue
            n = D.nodes[x]
            if d not in D.fr[x]:
                memo[x] = x
                todo.pop()
                continue
            if n[0] in ('mv', 'kv'):
                memo[x] = s.lit('mv', d, ix[n[2]]) if n[0] == 'mv' else x
                todo.pop()
                continue
            ks = [y.i for y in n if isinstance(y, Ref)]
            miss = [k for k in ks if k not in memo]
            if miss:
                todo.extend(miss)
                continue
            todo.pop()
            nk = [memo[k] for k in ks]
            if n[0] == 'lin':
                ps = sorted([(memo[n[j].i], n[j + 1]) for j in range(3, len(n), 2)], key=lambda p: D.hash[p[0]])
                n2 = n[:3] + tuple(y for k, w in ps for y in (Ref(k), w))
            else:
                if n[0] in COMM:
                    nk.sort(key=lambda k: D.hash[k])
                it = iter(nk)
                n2 = tuple(Ref(next(it)) if isinstance(y, Ref) else y for y in n)
            memo[x] = D.add(n2, nk, D.opq[x], D.und[x])
        return memo[i]

    def fold(s, c):
        """close the open loop c (variables used so far and everything they need)"""
        L = mm.LOOPS.get(c.uid)
        if L is None or L['back'] is None:
            return None
        outer = s.cx
        s.cx = c
        back = s.dump(L['back'])
        nx = []
        i = 0
        while i < len(c.mus):
            v = c.extra.get(c.mus[i].id) or L['vars'].get(c.mus[i].id)
            nx.append(s.dump(v[1]) if v is not None else s.lit('opq', 'mu', 0, False, opaque=True))
            i += 1
        s.cx = c.up
        vs = dict(L['vars'])
        vs.update(c.extra)
        ini = [s.dump(vs[a.id][0]) if a.id in vs else s.lit('opq', 'mu', 0, False, opaque=True) for a in c.mus]
        s.cx = outer
        return s.mk('fold', back, *(ini + nx), lit=(c.depth, len(ini)))

    def _dump(s, x):
        if isinstance(x, Lin):
            if not x.t:
                return s.lit('c', float(x.c) if x.isf else int(x.c), bool(x.isf))
            ks = [(s.dump(a), k) for a, k in x.t]
            if len(ks) == 1 and ks[0][1] == 1 and x.c == 0:
                return ks[0][0]
            ks.sort(key=lambda k: s.d.hash[k[0]])
            return s.d.add(('lin', bool(x.isf), x.c) + tuple(y for k in ks for y in (Ref(k[0]), k[1])), [k[0] for k in ks])
        if isinstance(x, C):
            return s._c(x)
        if isinstance(x, Ptr):
            if x.obj is NULLOBJ:
                return s.lit('null')
            return s.mk('ptr', s.dump(x.off), lit=(olabel(x.obj),))
        if isinstance(x, PIte):
            return s.mk('ite', s.dump(x.c), s.dump(x.a), s.dump(x.b))
        if isinstance(x, FnPtr):
            return s.lit('fn', x.name)
        if isinstance(x, T):
            return s._t(x)
        if x is None:
            return s.lit('none')
        return s.lit('?', type(x).__name__, opaque=True)

    def _t(s, a):
        op, A = a.op, a.a
        if op == 'hv' and s.res(a) is not None:
            return s.dump(s.res(a))
        if op == 'in':
            o = mm.OBJS.get(A[3])
            lab = olabel(o) if o is not None else A[0]
            off = A[1]
            if not off.t:
                lay = o.lay if o is not None else None
                f = lay.get(off.c) if lay else None
                nm = f[0] if f and f[2] == A[2] else str(off.c)
                return s.lit('in', lab, nm, off.c, A[2], a.lo if not a.isf else None, a.hi if not a.isf else None, bool(a.isf))
            return s.mk('ins', s.dump(off), lit=(lab, A[2], a.lo if not a.isf else None, a.hi if not a.isf else None, bool(a.isf)))
        if op in ('bits', 'sbits'):
            o = mm.OBJS.get(A[3])
            lab = olabel(o) if o is not None else A[0]
            return s.mk(op, s.dump(A[1]), s.dump(A[2]), lit=(lab,))
        if op == 'param':
            return s.lit('param', str(A[0]), a.lo, a.hi, bool(a.isf))
        if op in ('k', 'mu', 'mub'):
            r = s.loopvar(a)
            if r is not None:
                return r
            n = s.on.setdefault(a.id, len(s.on))
            return s.lit('opq', op, n, bool(a.isf), opaque=True)
        if op == 'undef':
            return s.lit('undef', bool(a.isf), und=True)
        if op == 'ev':
            # a value supplied by the environment: n-th execution of an action, in which iteration
            # (after the loop: its last one)
            vis = s.cx.vis if s.cx is not None else {}
            ks = None
            if all(x in vis for x in A[2][:-1]) and s.evd < 2:
                s.evd += 1
                try:
                    ks = [s.loopvar(KAT(x)) for x in A[2]]
                finally:
                    s.evd -= 1
            if ks is not None and all(x is not None for x in ks):
                if len(A) > 4:
                    ks.append(s.dump(A[4]))
                return s.mk('t:ev', *ks, lit=((A[0], A[1], str(A[3])), bool(a.isf), a.lo if not a.isf else None, a.hi if not a.isf else None))
            n = s.on.setdefault(a.id, len(s.on))
            return s.lit('opq', op, n, bool(a.isf), opaque=True)
        if op in OPAQUE or op.startswith('fr_'):
            n = s.on.setdefault(a.id, len(s.on))
            return s.lit('opq', op, n, bool(a.isf), opaque=True)
        if op == 'undefb':
            return s.lit('undef', False, und=True)
        if op == 'tbl':
            o = mm.OBJS.get(A[3])
            off, size = A[1], A[2]
            cells = getattr(o, 'cells', None)
            tab = ()
            if cells is not None:
                tab = tuple(sorted((x, e[0], (e[1].c if isinstance(e[1], Lin) and not e[1].t else None)) for x, e in cells.items()))
            return s.mk('tbl', s.dump(off), lit=(tab, size, bool(a.isf)))
        if op == 'crc':
            nm, kk, oid, off, n, init = A
            o = mm.OBJS.get(oid)
            lab = olabel(o) if kk == 'pr' and o is not None else '?'
            return s.mk('crc', s.dump(off), s.dump(n), s.dump(init), lit=(nm, lab), opaque=kk != 'pr')
        if op in ('addr', 'isnull'):
            o = mm.OBJS.get(A[0])
            return s.lit(op, olabel(o) if o is not None else '?')
        if op == 'faddr':
            return s.lit(op, str(A[0]))
        if op == 'sum':
            return s.dump(A[0])
        if op in ('sy', 'sx'):
            c = s.cx
            while c is not None:
                if a.id in c.extra:
                    return s.lit('mv', c.depth, c.index(a))
                c = c.up
            return s.lit('opq', op, 0, bool(a.isf), opaque=True)
        if op in ('atv', 'sf'):
            L = mm.LOOPS.get(A[0])
            if len(A[1].t) == 1 and A[1].c == 0 and A[1].t[0][1] == 1 and A[1].t[0][0].op == 'k' and A[1].t[0][0].a[0] == A[0] and (op == 'atv' or not A[6]):
                # the current iteration of an open loop: one more of its carried values
                c = s.cx.vis.get(A[0]) if s.cx is not None else None
                if c is not None and (c is s.cx or op == 'atv'):
                    if op == 'atv':
                        return s.dump(A[2])
                    ya = mm.ATOMS[A[4]]
                    c.extra.setdefault(ya.id, (A[2], A[3]))
                    return s.lit('mv', c.depth, c.index(ya))
            if op == 'sf' and not A[6] and a.id in s.busy and s.bctx.get(a.id) is not None and s.cx is not None and s.cx.vis.get(A[0]) is s.bctx[a.id] and A[1].c == 0 and len(A[1].t) == 1 and A[1].t[0][1] == 1 and A[1].t[0][0].op == 'k' and A[1].t[0][0].a[0] == A[0]:
                # the value at the head of the iteration being described
                c = s.bctx[a.id]
                return s.lit('mv', c.depth, c.index(mm.ATOMS[A[4]]))
            if op == 'sf' and A[6] and a.id in s.busy and L is not None and L['back'] is not None:
                # the recurrence of this cell uses other cells of the same array
                c, b = s.bctx.get(a.id), s.cx
                while b is not None and b is not c:
                    b = b.up
                if b is not None and a.id in mm.SFX:
                    s.selfref.add(a.id)
                    return s.mk('sa', s.dump(A[1]), s.dump(A[5]), lit=(c.depth,))
            if L is None or L['back'] is None or a.id in s.busy or len(s.busy) > 24:
                n = s.on.setdefault(a.id, len(s.on))
                return s.lit('opq', op, n, bool(a.isf), opaque=True)
            s.busy.add(a.id)
            try:
                c = s.closed(A[0])
                outer = s.cx
                j = s.dump(A[1])
                if op == 'sf':
                    ya = mm.ATOMS[A[4]]
                    c.extra[ya.id] = (A[2], A[3])
                    if A[6]:
                        xa = mm.ATOMS[A[6]]
                        c.extra[xa.id] = (A[5], lin(xa))
                    s.bctx[a.id] = c
                    body = s.lit('mv', c.depth, c.index(ya))
                    if A[6]:
                        f, (bd,) = s.slice(c, [body], False)
                        if a.id not in s.selfref:
                            return s.mk('atv', f, j, bd, lit=(c.depth,))
                        import absint
                        iv = absint.Interp.sf_init(None, a.id)
                        if iv is None:
                            n = s.on.setdefault(a.id, len(s.on))
                            return s.lit('opq', op, n, bool(a.isf), opaque=True)
                        s.cx = c
                        try:
                            xm, ix = s.lit('mv', c.depth, c.index(xa)), s.dump(iv)
                        finally:
                            s.cx = outer
                        f, (bd, xm, ix) = s.slice(c, [body, xm, ix], False)
                        return s.mk('atv', f, j, bd, xm, ix, lit=(c.depth,))
                else:
                    s.cx = c
                    try:
                        body = s.dump(A[2])
                    finally:
                        s.cx = outer
                f, (body,) = s.slice(c, [body], False)
            finally:
                s.busy.discard(a.id)
                s.bctx.pop(a.id, None)
            return s.mk('atv', f, j, body, lit=(c.depth,))
        ks, lits = [], []
        for x in A:
            if isinstance(x, (Lin, C, T, Ptr, PIte, FnPtr)):
                ks.append(s.dump(x))
            else:
                lits.append(x if isinstance(x, (int, float, str, bool)) else str(x))
        comm = op in ('mul', 'fmul', 'and', 'or', 'xor')
        return s.mk('t:' + op, *ks, lit=(tuple(lits), bool(a.isf), a.lo if not a.isf else None, a.hi if not a.isf else None), comm=comm)

    def _c(s, c):
        op = c.op
        if op == 'T':
            return s.lit('T')
        if op == 'F':
            return s.lit('F')
        if op == 'rng':
            return s.mk('rng', s.dump(c.a[0]), lit=(c.a[1], c.a[2]))
        if op == 'ne':
            return s.mk('ne', s.dump(c.a[0]), lit=(c.a[1],))
        if op in ('flt', 'fle', 'feq'):
            return s.mk(op, s.dump(c.a[0]))
        if op in ('and', 'or'):
            return s.mk(op, *[s.dump(x) for x in sorted(c.a[0], key=lambda x: x.id)], comm=True)
        if op == 'not':
            return s.mk('not', s.dump(c.a[0]))
        if op == 'b':
            return s.mk('b', s.dump(c.a[0]))
        return s.lit('?c', op, opaque=True)

    def conj(s, conds):
        ks = []
        for c in conds:
            if c.op == 'and':
                ks += [s.dump(x) for x in sorted(c.a[0], key=lambda x: x.id)]
            else:
                ks.append(s.dump(c))
        ks = sorted(set(ks), key=lambda k: s.d.hash[k])
        if len(ks) == 1:
            return ks[0]
        return s.mk('and', *ks) if ks else s.lit('T')


def pathconds(p, stop=None):
    out = []
    while p is not None and p is not stop:
        if p.c is not CT:
            out.append(p.c)
        p = p.p
    return out


# ------------------------------------------------------------------ serialised form
class Sum:
    """nodes: list of tuples with Ref; roots: name -> index"""

    def __init__(s, nodes, roots, hashes=None, opq=None, und=None, meta=None):
        s.nodes, s.roots = nodes, roots
        s.hash, s.opq, s.und = hashes, opq, und
        s.meta = meta or {}
        if s.hash is None:
            s.rehash()
        s.fr = []
        for n in s.nodes:
            if n[0] in ('kv', 'mv'):
                s.fr.append(frozenset((n[1],)))
                continue
            f = frozenset().union(*[s.fr[x.i] for x in n if isinstance(x, Ref)]) if len(n) > 1 else frozenset()
            if n[0] == 'sa':
                f = f | {n[1]}
            if n[0] in ('fold', 'atv'):
                f = frozenset(x for x in f if x < n[1])
            s.fr.append(f)
        s.lv = [max(f) + 1 if f else 0 for f in s.fr]

    def rehash(s):
        s.hash, s.opq, s.und = [], [], []
        for n in s.nodes:
            kids = [x.i for x in n if isinstance(x, Ref)]
            s.hash.append(hashlib.md5(repr((n[0],) + tuple(x if not isinstance(x, Ref) else s.hash[x.i] for x in n[1:])).encode()).hexdigest())
            s.opq.append(n[0] in ('opq', '?', '?c') or n[0] == 'crc' and n[2] == '?' or any(s.opq[k] for k in kids))
            s.und.append(n[0] == 'undef' or any(s.und[k] for k in kids))

    def restrict(s, names):
        """keep only the given roots (and reachable nodes)"""
        need = set()
        todo = [s.roots[n] for n in names]
        while todo:
            i = todo.pop()
            if i in need:
                continue
            need.add(i)
            todo += [x.i for x in s.nodes[i] if isinstance(x, Ref)]
        order = sorted(need)
        m = {o: j for j, o in enumerate(order)}
        nodes = [tuple(Ref(m[x.i]) if isinstance(x, Ref) else x for x in s.nodes[o]) for o in order]
        return Sum(nodes, {n: m[s.roots[n]] for n in names}, None)

    def to_json(s):
        def enc(x):
            if isinstance(x, Ref):
                return {'r': x.i}
            if isinstance(x, tuple):
                return [enc(y) for y in x]
            if isinstance(x, float) and (x in (INF, -INF) or x != x):
                return {'f': repr(x)}
            return x
        return {'nodes': [[enc(x) for x in n] for n in s.nodes], 'roots': s.roots, 'meta': s.meta}

    @staticmethod
    def from_json(j):
        def dec(x):
            if isinstance(x, dict):
                if 'r' in x:
                    return Ref(x['r'])
                return float(x['f'])
            if isinstance(x, list):
                return tuple(dec(y) for y in x)
            return x
        return Sum([tuple(dec(x) for x in n) for n in j['nodes']], j['roots'], meta=j.get('meta'))


def show_node(S, i, d=0):
    n = S.nodes[i]
    op = n[0]
    R = lambda x: show_node(S, x.i, d + 1)
    if d > 12:
        return '..'
    if op == 'c':
        return repr(n[1])
    if op == 'lin':
        ts = []
        for j in range(3, len(n), 2):
            k = n[j + 1]
            t = R(n[j])
            ts.append(t if k == 1 else '%r*%s' % (k, t))
        if n[2] != 0:
            ts.append(repr(n[2]))
        return '(%s)' % ' + '.join(ts) if len(ts) > 1 else ts[0]
    if op == 'in':
        return '%s.%s' % (n[1], n[2])
    if op == 'ins':
        return '%s[%s]' % (n[1], R(n[-1]))
    if op in ('bits', 'sbits'):
        return '%s[%s;%s]' % (op, R(n[2]), R(n[3]))
    if op == 'param':
        return n[1]
    if op == 'kv':
        return 'k%d' % n[1]
    if op == 'mv':
        return 'v%d_%d' % (n[1], n[2])
    if op == 'kx':
        return 'count(%s)' % R(n[1])
    if op == 'mx':
        return R(n[1])
    if op == 'sa':
        return 'cell%d[%s at iteration %s]' % (n[1], R(n[3]), R(n[2]))
    if op == 'atv':
        return '[%s at iteration %s of %s]' % (R(n[4]), R(n[3]), R(n[2]))
    if op == 'fold':
        k = n[2]
        return 'fold{while %s; %s; %s}' % (R(n[3]), ', '.join('v%d_%d=%s' % (n[1], i, R(x)) for i, x in enumerate(n[4:4 + k])), ', '.join('v%d_%d:=%s' % (n[1], i, R(x)) for i, x in enumerate(n[4 + k:])))
    if op == 'opq':
        return '?%s%d' % (n[1], n[2])
    if op == 'undef':
        return 'UNDEF'
    if op == 'rng':
        lo, hi, k = n[1], n[2], R(n[3])
        if lo == hi:
            return '%s==%s' % (k, lo)
        if lo == -INF:
            return '%s<=%s' % (k, hi)
        if hi == INF:
            return '%s>=%s' % (k, lo)
        return '%s in [%s,%s]' % (k, lo, hi)
    if op == 'ne':
        return '%s!=%s' % (R(n[2]), n[1])
    if op in ('flt', 'fle', 'feq'):
        return '%s%s0' % (R(n[1]), {'flt': '<', 'fle': '<=', 'feq': '=='}[op])
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(R(x) for x in n[1:]) + ')'
    if op == 'not':
        return '!' + R(n[1])
    if op == 't:ite' or op == 'ite':
        ks = [x for x in n if isinstance(x, Ref)]
        return '(%s ? %s : %s)' % tuple(R(x) for x in ks)
    if op == 't:mod':
        return '(%s mod %s)' % (R(n[5]), n[1][0])
    if op == 't:fdiv':
        return '(%s div %s)' % (R(n[5]), n[1][0])
    if op == 't:i2f':
        return R(n[5])
    if op == 'tbl':
        return 'tbl%d[%s]' % (len(n[1]), R(n[4]))
    ks = [R(x) for x in n[1:] if isinstance(x, Ref)]
    ls = [str(x) for x in n[1:] if not isinstance(x, Ref)]
    return '%s(%s)' % (op, ','.join(([] if op.startswith('t:') else ls) + ks))


# ------------------------------------------------------------------ valuation
class Undef(Exception):
    """no value on this valuation (division by zero, out of range ...)"""


class Uninit(Undef):
    """an uninitialised value is used"""


class Unknown(Undef):
    """a value the analysis does not know is used"""


class Val:
    def __init__(s, rnd):
        s.rnd = rnd
        s.bytes = {}
        s.fl = {}
        s.par = {}
        s.uf = {}
        s.bias = rnd.random()
        s.salt = '%d' % rnd.randrange(1 << 30)
        s.log = None
        s.sparse = rnd.choice([0.0, 0.0, 0.6, 0.9])
        s.elems = None     # members of the elements of input arrays (see fields_of)
        s.few = None

    def byte(s, lab, off):
        k = (lab, off)
        v = s.bytes.get(k)
        if v is None and s.elems and lab in s.elems and s.rnd.random() < 0.9:
            for q in s.elems[lab]:
                stride, base, size, ch = q
                d = off - base
                if d < 0 or d % stride >= size:
                    continue
                r = s.rnd.random()
                if ch and r < 0.75:
                    w = s.rnd.choice(ch)
                elif r < 0.85:
                    f = s.few.get((lab, stride, base))
                    if f is None:
                        f = s.few[lab, stride, base] = [s.rnd.randrange(1, 40) for _ in range(2)]
                    w = s.rnd.choice(f)
                else:
                    break
                o = off - d % stride
                for j in range(size):
                    s.bytes.setdefault((lab, o + j), (w >> (8 * j)) & 255)
                return s.bytes[k]
        if v is None:
            r = s.rnd.random()
            v = (0 if s.rnd.random() < s.sparse else 1 << s.rnd.randrange(8)) if s.sparse else 0 if r < 0.25 * s.bias else 255 if r < 0.4 * s.bias else s.rnd.randrange(256)
            s.bytes[k] = v
        return v

    def f(s, key):
        v = s.fl.get(key)
        if v is None:
            r = s.rnd
            v = r.choice([0.0, 1.0, -1.0, 0.5, r.uniform(-1, 1), r.uniform(-100, 100), r.uniform(-1e4, 1e4), r.uniform(-1e7, 1e7), r.uniform(0, 3e7), r.uniform(0, 100)])
            s.fl[key] = v
        return v


class Env:
    __slots__ = ('memos', 'binds', 'fuel', 'rec')

    def __init__(s):
        s.rec = {}
        s.memos = [{}]
        s.binds = []
        s.fuel = 6000


MISS = object()


class Bad:
    """stands for a value that is not defined; using it in compiled code falls back to the interpreter"""
    __slots__ = ('e',)

    def __init__(s, e):
        s.e = e

    def no(s, *a):
        raise fast.Slow

    __eq__ = __ne__ = __bool__ = __hash__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __mul__ = __rmul__ = no
    __float__ = __int__ = __index__ = __and__ = __rand__ = __mod__ = __floordiv__ = no


def orbad(S, i, V, env):
    try:
        return evaluate(S, i, V, env)
    except Undef as e:
        return Bad(e.__class__())


def good(v):
    if v.__class__ is Bad:
        raise v.e
    return v


def evaluate(S, root, V, env):
    r = env.memos[S.lv[root]].get(root, MISS)
    if r is not MISS:
        if r.__class__ is Bad:
            raise r.e
        return r
    try:
        r = _ev(S, S.nodes[root], V, env)
    except Undef as e:
        env.memos[S.lv[root]][root] = Bad(e.__class__())
        raise
    env.memos[S.lv[root]][root] = r
    return r


def code(S, fi):
    c = S.__dict__.setdefault('code', {})
    f = c.get(fi)
    if f is None:
        import sys
        f = c[fi] = fast.Code(S, fi, sys.modules[__name__])
        n = S.nodes[fi]
        f.back = f.func([n[3].i])
        f.next = f.func([x.i for x in n[4 + n[2]:]])
    return f


def iterate(S, n, V, env, body=None, fi=None):
    """run the recurrence of a fold node; returns (count, final variables)"""
    d, k = n[1], n[2]
    C = code(S, fi) if fi is not None and body is None else None
    back, ini, nx = n[3].i, n[4:4 + k], n[4 + k:]
    vals = [orbad(S, x.i, V, env) for x in ini]
    cnt = 0
    sm, sb = env.memos[d + 1:], env.binds[d:]
    try:
        while True:
            del env.memos[d + 1:]
            del env.binds[d:]
            env.memos.append({})
            env.binds.append((cnt, vals))
            if body is not None:
                body()
            if C is not None:
                m = C.frame(cnt, vals)
                try:
                    b = C.back(m, V, env)[0]
                except fast.ERR:
                    b = evaluate(S, back, V, env)
                if not good(b):
                    return cnt, vals
                try:
                    vals = C.next(m, V, env)
                except fast.ERR:
                    vals = [orbad(S, x.i, V, env) for x in nx]
            else:
                if not evaluate(S, back, V, env):
                    return cnt, vals
                vals = [orbad(S, x.i, V, env) for x in nx]
            cnt += 1
            env.fuel -= 1
            if env.fuel < 0:
                raise Undef()
    finally:
        env.memos[d + 1:] = sm
        env.binds[d:] = sb


def atx(S, n, j, x, V, env):
    """at() for a recurrence over the cells of an array that uses other cells of it; x: the cell (None: its own)"""
    d, fi, body, xm, ini = n[1], n[2].i, n[4].i, n[5].i, n[6].i
    if not isinstance(j, int) or j < 0 or len(env.binds) > 60:
        raise Undef()
    f = S.nodes[fi]
    k = f[2]
    lev = env.memos[S.lv[fi]]
    xi, yi = S.nodes[xm][2], S.nodes[body][2]
    base = lev.get(('base', fi))
    if base is None:
        base = lev[('base', fi)] = [orbad(S, y.i, V, env) for y in f[4:4 + k]]
    if x is None:
        x = good(base[xi])
    val = lev.get(('atx', fi, body, j, x))
    if val is not None:
        return good(val)
    key = ('seq', fi, x)
    if key not in lev:
        v0 = list(base)
        v0[xi] = x
        sm, sb = env.memos[d + 1:], env.binds[d:]
        try:
            env.memos[d + 1:] = [{}]
            env.binds[d:] = [(0, v0)]
            v0[yi] = orbad(S, ini, V, env)
        finally:
            env.memos[d + 1:] = sm
            env.binds[d:] = sb
        lev[key] = [(v0, {}, code(S, fi).frame(0, v0))]
    sv = env.rec.get(d)
    env.rec[d] = n
    try:
        r = at(S, fi, j, body, V, env, key)
        lev[('atx', fi, body, j, x)] = r
        return r
    finally:
        if sv is None:
            env.rec.pop(d, None)
        else:
            env.rec[d] = sv


def at(S, fi, j, body, V, env, key=None):
    """value of body at the head of iteration j of fold fi"""
    n = S.nodes[fi]
    d, k = n[1], n[2]
    C = code(S, fi)
    lev = env.memos[S.lv[fi]]
    seq = lev.get(key or ('seq', fi))
    if seq is None:
        v0 = [orbad(S, x.i, V, env) for x in n[4:4 + k]]
        seq = lev[('seq', fi)] = [(v0, {}, C.frame(0, v0))]
    if not isinstance(j, int) or j < 0:
        raise Undef()
    sm, sb = env.memos[d + 1:], env.binds[d:]
    try:
        i = min(j, len(seq) - 1)
        while True:
            del env.memos[d + 1:]
            del env.binds[d:]
            vals, m, fm = seq[i]
            env.memos.append(m)
            env.binds.append((i, vals))
            if i == j:
                g = C.func([body])
                if len(fm) < C.cnt:
                    fm += [fast.U] * (C.cnt - len(fm))
                try:
                    return good(g(fm, V, env)[0])
                except fast.ERR:
                    return evaluate(S, body, V, env)
            try:
                b = C.back(fm, V, env)[0]
            except fast.ERR:
                b = evaluate(S, n[3].i, V, env)
            if not good(b):
                raise Undef()
            try:
                vals = C.next(fm, V, env)
            except fast.ERR:
                vals = [orbad(S, x.i, V, env) for x in n[4 + k:]]
            i += 1
            seq.append((vals, {}, C.frame(i, vals)))
            env.fuel -= 1
            if env.fuel < 0:
                raise Undef()
    finally:
        env.memos[d + 1:] = sm
        env.binds[d:] = sb


def _bits(V, lab, pos, ln):
    if V.log is not None:
        V.log[(lab, pos, ln)] = 'b'
    v = 0
    for i in range(ln):
        p = pos + i
        v = v * 2 + ((V.byte(lab, p >> 3) >> (7 - (p & 7))) & 1)
    return v


EVPOOL = {}


def evpool(*sums):
    """the constants that values of the environment are compared with"""
    EVPOOL.clear()
    for S in sums:
        for n in S.nodes:
            if n[0] in ('rng', 'ne'):
                c = S.nodes[n[-1].i]
                k, cs = 1, [x for x in n[1:-1]]
                if c[0] == 't:mod' or c[0] == 't:ite':
                    c = S.nodes[c[-1].i]
                if c[0] == 'lin' and len(c) == 5 and abs(c[4]) == 1:
                    cs = [(x - c[2]) * c[4] for x in cs]
                    c = S.nodes[c[3].i]
                if c[0] == 't:ev':
                    P = EVPOOL.setdefault(c[1], [])
                    for x in cs:
                        if abs(x) != float('inf'):
                            for y in (x, x + 1, x - 1)[:2 + (len(cs) == 1)]:
                                if y not in P and (c[3] is None or c[3] <= y <= c[4]):
                                    P.append(y)


def _clampuf(V, key, lo, hi, isf):
    v = V.uf.get(key)
    if v is None:
        P = EVPOOL.get(key[1]) if key[0] == 'ev' else None
        if P:
            h = random.Random(repr(key) + V.salt)
            if h.random() < 0.7:
                v = V.uf[key] = h.choice(P)
                return v
        h = random.Random(repr(key) + V.salt)
        if isf:
            v = h.choice([0.0, 1.0, h.uniform(-1, 1), h.uniform(-1000, 1000), h.uniform(-1e6, 1e6)])
        else:
            lo2 = lo if lo is not None and lo > -1e15 else 0
            hi2 = hi if hi is not None and hi < 1e15 else lo2 + 1000
            lo2, hi2 = int(lo2), int(max(hi2, lo2))
            v = h.choice([h.randint(lo2, hi2), h.randint(lo2, hi2), min(max(0, lo2), hi2), min(max(1, lo2), hi2), h.randint(max(lo2, -20), max(min(hi2, 40), max(lo2, -20))) if lo2 <= 40 else lo2])
        V.uf[key] = v
    return v


def tval(n, V, a):
    o = n[0][2:]
    lits, isf, lo, hi = n[1:5]
    try:
        if o == 'mod':
            return a[0] % lits[0]
        if o == 'fdiv':
            return a[0] // lits[0]
        if o == 'mul' or o == 'fmul':
            return a[0] * a[1]
        if o == 'i2f':
            return float(a[0])
        if o == 'f2i':
            return int(a[0])
        if o == 'and':
            return a[0] & a[1]
        if o == 'or':
            return a[0] | a[1]
        if o == 'xor':
            return a[0] ^ a[1]
        if o == 'shl':
            return a[0] << min(a[1], 200)
        if o in ('lshr', 'ashr'):
            return a[0] >> min(a[1], 200)
        if o == 'udiv':
            return a[0] // a[1]
        if o == 'urem':
            return a[0] % a[1]
        if o == 'sdiv':
            q = abs(a[0]) // abs(a[1])
            return q if (a[0] >= 0) == (a[1] > 0) else -q
        if o == 'srem':
            q = abs(a[0]) % abs(a[1])
            return q if a[0] >= 0 else -q
        if o == 'fdivv':
            return a[0] / a[1]
        if o == 'frem':
            return math.fmod(a[0], a[1])
        if o == 'ftrunc':
            return int(a[0])
        if o == 'round':
            return float(math.floor(abs(a[0]) + 0.5) * (1 if a[0] >= 0 else -1))
        if o == 'ffloor':
            return float(math.floor(a[0]))
        if o == 'fceil':
            return float(math.ceil(a[0]))
        if o == 'ftrnc':
            return float(math.trunc(a[0]))
        if o == 'rint':
            return float(round(a[0]))
        if o == 'pow':
            return float(a[0]) ** a[1]
        if o == 'ldexp':
            return math.ldexp(a[0], int(a[1]))
        if o == 'fspecial':
            raise Unknown()
        if o in ('isnan', 'nonfinite'):
            return False
        if o == 'fn:sqrt':
            return math.sqrt(a[0])
        if o in ('fn:sin', 'fn:cos', 'fn:tan', 'fn:exp', 'fn:atan'):
            return getattr(math, o[3:])(a[0])
        if o == 'fn:atan2':
            return math.atan2(a[0], a[1])
        if o == 'b2f':
            sz = lits[0]
            x = struct.unpack('<d' if sz == 8 else '<f', (a[0] % (1 << (8 * sz))).to_bytes(sz, 'little'))[0]
            if x != x or abs(x) > 1e30 or 0 < abs(x) < 1e-30:
                return _clampuf(V, ('b2f', sz, a[0] % (1 << (8 * sz))), None, None, True)   # stands for a value of ordinary size
            return x
    except (ZeroDivisionError, OverflowError, ValueError, TypeError):
        raise Undef()
    return _clampuf(V, (o, lits) + tuple(a), lo, hi, isf)


def bitsval(V, lab, pos, ln, sg):
    if ln <= 0 or ln > 64 or pos < 0 or pos > 1 << 20:
        return 0
    v = _bits(V, lab, pos, ln)
    if sg and v >> (ln - 1):
        v -= 1 << ln
    return v


def insval(V, lab, size, lo, isf, off):
    if isf:
        return V.f((lab, off))
    if V.log is not None:
        V.log[(lab, off, size)] = 'i'
    v = 0
    for i in range(size):
        v |= V.byte(lab, off + i) << (8 * i)
    if lo is not None and lo < 0 and v >= 1 << (8 * size - 1):
        v -= 1 << (8 * size)
    return v


def _ev(S, n, V, memo):
    op = n[0]
    if op == 'kv':
        return memo.binds[n[1]][0]
    if op == 'mv':
        return good(memo.binds[n[1]][1][n[2]])
    if op == 'kx':
        return iterate(S, S.nodes[n[1].i], V, memo, None, n[1].i)[0]
    if op == 'mx':
        return good(iterate(S, S.nodes[n[1].i], V, memo, None, n[1].i)[1][0])
    if op == 'atv':
        if len(n) > 5:
            return atx(S, n, evaluate(S, n[3].i, V, memo), None, V, memo)
        return at(S, n[2].i, evaluate(S, n[3].i, V, memo), n[4].i, V, memo)
    if op == 'sa':
        r = memo.rec.get(n[1])
        if r is None:
            raise Unknown()
        return atx(S, r, evaluate(S, n[2].i, V, memo), evaluate(S, n[3].i, V, memo), V, memo)
    E = lambda r: evaluate(S, r.i, V, memo)
    if op == 'c':
        return n[1]
    if op == 'lin':
        v = n[2]
        for j in range(3, len(n), 2):
            v += n[j + 1] * E(n[j])
        return v
    if op in ('in', 'ins'):
        if op == 'in':
            lab, off, size, lo, hi, isf = n[1], n[3], n[4], n[5], n[6], n[7]
        else:
            lab, size, lo, hi, isf = n[1:6]
            off = E(n[6])
        if isf:
            return V.f((lab, off))
        if V.log is not None:
            V.log[(lab, off, size)] = 'i'
        v = 0
        for i in range(size):
            v |= V.byte(lab, off + i) << (8 * i)
        if lo is not None and lo < 0 and v >= 1 << (8 * size - 1):
            v -= 1 << (8 * size)
        if hi == 1:
            v &= 1
        return v
    if op in ('bits', 'sbits'):
        pos, ln = E(n[2]), E(n[3])
        if ln <= 0 or ln > 64 or pos < 0 or pos > 1 << 20:
            return 0
        v = _bits(V, n[1], pos, ln)
        if op == 'sbits' and v >> (ln - 1):
            v -= 1 << ln
        return v
    if op in ('param', 'addr', 'isnull', 'faddr'):
        key = n
        v = V.par.get(key)
        if v is None:
            r = V.rnd
            if op == 'param':
                lo, hi, isf = n[2], n[3], n[4]
                if isf:
                    v = V.f(key)
                else:
                    v = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), min(max(0, lo), hi), min(max(1, lo), hi), r.randint(max(lo, -200), min(hi, 200)) if max(lo, -200) <= min(hi, 200) else lo])
            elif op == 'isnull':
                v = 0 if r.random() < 0.8 else 1
            else:
                v = 4096 + hash(repr(n)) % 100000 * 16
            V.par[key] = v
        return v
    if op == 'undef':
        raise Uninit()
    if op == 'opq' or op in ('?', '?c'):
        raise Unknown()
    if op == 'T':
        return True
    if op == 'F':
        return False
    if op == 'rng':
        v = E(n[3])
        return n[1] <= v <= n[2]
    if op == 'ne':
        return E(n[2]) != n[1]
    if op in ('flt', 'fle', 'feq'):
        v = E(n[1])
        if v != 0 and abs(v) < 1 and abs(v) <= ROUND * magn(S, n[1].i, V, memo):
            raise Undef()      # decided by rounding
        return v < 0 if op == 'flt' else v <= 0 if op == 'fle' else v == 0
    if op in ('and', 'or'):
        w = op == 'or'
        unk = None
        for x in n[1:]:
            try:
                if bool(E(x)) == w:
                    return w
            except Undef as ex:
                unk = ex
        if unk is not None:
            raise unk
        return not w
    if op == 'not':
        return not E(n[1])
    if op == 'b':
        return bool(E(n[1]))
    if op == 'ptr':
        return ('p', n[1], E(n[2]))
    if op in ('null', 'fn', 'none', '?', '?c'):
        return n
    if op == 'tbl':
        tab, size, isf = n[1], n[2], n[3]
        off = E(n[4])
        for x, sz, v in tab:
            if x == off:
                return v if v is not None else _clampuf(V, ('tblv', off), 0, 255, isf)
        return 0.0 if isf else 0
    if op == 'crc':
        return _clampuf(V, ('crc',) + n[1:3] + tuple(E(x) for x in n[3:]), 0, (1 << 24) - 1, False)
    if op == 'ite':
        return E(n[2]) if E(n[1]) else E(n[3])
    if op.startswith('t:'):
        o = op[2:]
        lits, isf, lo, hi = n[1:5]
        ks = n[5:]
        if o == 'ite':
            return E(ks[1]) if E(ks[0]) else E(ks[2])
        a = [E(k) for k in ks]
        if o in STEPS and isinstance(a[0], float):
            d = a[0] - 0.5 if o in ('round', 'rint') else a[0]
            d = abs(d - round(d)) if abs(d) < 1e16 else 0
            if d and d <= ROUND * magn(S, ks[0].i, V, memo):
                raise Undef()      # decided by rounding
        return tval(n, V, a)
    raise Undef()


ROUND = 4e-14
STEPS = {'ftrunc', 'f2i', 'ffloor', 'fceil', 'ftrnc', 'round', 'rint'}


def magn(S, i, V, memo, loc=None):
    """size of the largest intermediate of a real expression (bounds its rounding error)"""
    loc = {} if loc is None else loc
    if i in loc:
        return loc[i]
    loc[i] = 0.0
    n = S.nodes[i]
    op = n[0]
    M = lambda r: magn(S, r.i, V, memo, loc)
    E = lambda r: abs(evaluate(S, r.i, V, memo))
    if len(loc) > 80:
        r = 1e3 * abs(evaluate(S, i, V, memo))
    elif op == 'lin':
        r = max([abs(n[2])] + [abs(n[j + 1]) * M(n[j]) for j in range(3, len(n), 2)])
    elif op == 't:ite' or op == 'ite':
        ks = [x for x in n if isinstance(x, Ref)]
        r = M(ks[1] if evaluate(S, ks[0].i, V, memo) else ks[2])
    elif op == 't:fmul' or op == 't:mul':
        r = max(M(n[5]) * E(n[6]), E(n[5]) * M(n[6]))
    elif op == 't:fdivv':
        b = E(n[6])
        r = max(M(n[5]) / b, E(n[5]) / b / b * M(n[6])) if b else 0.0
    elif op == 't:frem':
        r = M(n[5])
    else:
        v = evaluate(S, i, V, memo)
        r = abs(v) * (10 if op in ('mv', 'mx', 'kx') else 1) if isinstance(v, (int, float)) else 0.0
    loc[i] = r
    return r


class FV(float):
    """a real result with the size of its possible rounding error"""
    tol = 0.0


def evaltol(S, i, V, env):
    v = evaluate(S, i, V, env)
    if isinstance(v, float):
        m = magn(S, i, V, env)
        v = FV(v)
        v.tol = ROUND * m
    return v


def support(S, root, memo=None):
    memo = set() if memo is None else memo
    out = []
    todo = [root]
    while todo:
        i = todo.pop()
        if i in memo:
            continue
        memo.add(i)
        n = S.nodes[i]
        if n[0] in ('in', 'ins', 'bits', 'sbits', 'param') and S.lv[i] == 0:
            out.append(i)
        todo += [x.i for x in n if isinstance(x, Ref)]
    return out


def fields_of(pairs, pool):
    """the members of array elements the terms read at varying positions, with the values they are
    compared with: label -> [(stride, first, size, values)]"""
    import math
    F = {}
    for S, roots in pairs:
        seen, todo = set(), list(roots)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            n = S.nodes[i]
            todo += [x.i for x in n if isinstance(x, Ref)]
            if n[0] != 'ins' or S.lv[i] == 0 or n[5]:
                continue
            o = S.nodes[n[6].i]
            if o[0] != 'lin':
                continue
            g = 0
            for j in range(4, len(o), 2):
                g = math.gcd(g, abs(int(o[j])))
            if g < n[2] or g <= 0 or o[2] < 0:
                continue
            F.setdefault((n[1], g, int(o[2]), n[2]), set()).update(v for v in pool.get(S.hash[i], ()) if isinstance(v, int) and (n[3] is None or n[3] <= v <= n[4]))
    out = {}
    for (lab, g, b, size), ch in sorted(F.items(), key=lambda x: (str(x[0][0]), -x[0][3], x[0][1], x[0][2])):
        out.setdefault(lab, []).append((g, b, size, sorted(ch)))
    return out


def use_fields(V, fields, rnd, leaves):
    """make V choose the members of array elements from their values of interest, few elements"""
    V.elems, V.few = fields, {}
    for S, i in leaves:
        n = S.nodes[i]
        if n[0] == 'in' and not n[7] and n[4] <= 2 and rnd.random() < 0.5:
            try:
                setleaf(S, i, rnd.randrange(1, 5), V, Env())
            except Undef:
                pass


def consts(S, roots):
    """interesting values per leaf-signature, from the comparisons in the terms"""
    pool = {}
    seen = set()
    todo = list(roots)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        n = S.nodes[i]
        todo += [x.i for x in n if isinstance(x, Ref)]
        if n[0] in ('rng', 'ne'):
            vals = [v for v in n[1:-1] if v not in (INF, -INF)]
            k = n[-1].i
            kn = S.nodes[k]
            c0, kk = 0, 1
            if kn[0] == 'lin' and len(kn) == 5:
                c0, kk, k = kn[2], kn[4], kn[3].i
            p = pool.setdefault(S.hash[k], set())
            for v in vals:
                try:
                    b = int((v - c0) / kk)
                except Exception:
                    continue
                p.update((b - 1, b, b + 1))
        elif n[0][:2] == 't:' and n[0][2:] in STEPS and len(n) > 5:
            # between the steps of a rounding
            k = n[5].i
            kn = S.nodes[k]
            c0, kk = 0, 1
            if kn[0] == 'lin' and len(kn) == 5:
                c0, kk, k = kn[2], kn[4], kn[3].i
            if S.nodes[k][0] in ('in', 'ins', 'param', 't:ev', 't:b2f') and kk:
                pool.setdefault(S.hash[k], set()).update((b + f - c0) / kk for b in (0, -1, 6, 101, -30000, 30000) for f in (0.3, 0.7))
    return pool


def setleaf(S, i, v, V, memo):
    """assign value v to leaf node i"""
    n = S.nodes[i]
    op = n[0]
    if op in ('bits', 'sbits'):
        pos, ln = evaluate(S, n[2].i, V, memo), evaluate(S, n[3].i, V, memo)
        if not 0 < ln <= 64 or pos < 0 or pos > 1 << 20:
            return
        v &= (1 << ln) - 1
        for j in range(ln):
            p = pos + j
            b = (v >> (ln - 1 - j)) & 1
            o = V.byte(n[1], p >> 3)
            m = 1 << (7 - (p & 7))
            V.bytes[(n[1], p >> 3)] = (o & ~m) | (m if b else 0)
    elif op in ('in', 'ins'):
        if op == 'in':
            lab, off, size, isf = n[1], n[3], n[4], n[7]
        else:
            lab, size, isf = n[1], n[2], n[5]
            off = evaluate(S, n[6].i, V, memo)
        if isf:
            V.fl[(lab, off)] = float(v)
        else:
            v = int(v) % (1 << (8 * size))
            for j in range(size):
                V.bytes[(lab, off + j)] = (v >> (8 * j)) & 255
    elif op == 'param':
        if n[4]:
            V.fl[n] = float(v)
            V.par[n] = float(v)
        else:
            V.par[n] = min(max(int(v), n[2]), n[3])


def ev3(S, i, V, memo):
    """True / False / None (not known)"""
    try:
        return bool(evaluate(S, i, V, memo))
    except Undef:
        return None


def useful(S, i, memo):
    """can some valuation evaluate this node without meeting an unknown value?"""
    if not S.opq[i] and not S.und[i]:
        return True
    r = memo.get(i)
    if r is not None:
        return r
    memo[i] = False
    n = S.nodes[i]
    ks = [x.i for x in n[1:] if isinstance(x, Ref)]
    if n[0] in ('opq', '?', '?c', 'undef') or n[0] == 'crc' and S.opq[i]:
        r = False
    elif n[0] in ('ite', 't:ite'):
        r = useful(S, ks[0], memo) and (useful(S, ks[1], memo) or useful(S, ks[2], memo))
    elif n[0] in ('and', 'or'):
        r = any(useful(S, k, memo) for k in ks)
    else:
        r = all(useful(S, k, memo) for k in ks)
    memo[i] = r
    return r


def false_conjunct(S, i, V, memo, rnd):
    """descend to a false atomic condition"""
    while True:
        n = S.nodes[i]
        if n[0] == 'and':
            bad = [x.i for x in n[1:] if ev3(S, x.i, V, memo) is False]
            if not bad:
                return i
            i = rnd.choice(bad)
        elif n[0] == 'or':
            i = rnd.choice(n[1:]).i
        else:
            return i


def allfalse(S, guard, V, memo):
    """a conjunct known to be false exists"""
    n = S.nodes[guard]
    return n[0] == 'and' and any(ev3(S, x.i, V, memo) is False for x in n[1:])


def satisfy(S, guard, V, rnd, pool, tries=60, deadline=None):
    """local search for a valuation satisfying the guard"""
    for _ in range(tries):
        if deadline is not None and time.time() > deadline:
            return False
        memo = Env()
        try:
            g = ev3(S, guard, V, memo)
            if g:
                return True
            if g is None and not allfalse(S, guard, V, memo):
                return None
            bad = false_conjunct(S, guard, V, memo, rnd)
            n = S.nodes[bad]
            sup = support(S, bad)
            if not sup:
                return False
            lf = rnd.choice(sup)
            if n[0] in ('rng', 'ne'):
                k = n[-1].i
                kn = S.nodes[k]
                c0, kk, kx, rest = 0, 1, k, 0
                if kn[0] == 'lin':
                    # pick a linear leaf and solve for it
                    opts = [j for j in range(3, len(kn), 2) if S.nodes[kn[j].i][0] in ('in', 'ins', 'bits', 'sbits', 'param')]
                    if opts and rnd.random() < 0.8:
                        j = rnd.choice(opts)
                        kx, kk = kn[j].i, kn[j + 1]
                        rest = evaluate(S, k, V, memo) - kk * evaluate(S, kx, V, memo)
                    else:
                        kx = None
                elif kn[0] not in ('in', 'ins', 'bits', 'sbits', 'param'):
                    kx = None
                if kx is not None:
                    if n[0] == 'rng':
                        lo, hi = n[1], n[2]
                        if lo == -INF:
                            tgt = hi - rnd.choice([0, 0, 1, 5, rnd.randrange(1000)])
                        elif hi == INF:
                            tgt = lo + rnd.choice([0, 0, 1, 5, rnd.randrange(1000)])
                        else:
                            tgt = rnd.randint(lo, hi)
                    else:
                        tgt = n[1] + rnd.choice([-1, 1, 2])
                    setleaf(S, kx, int((tgt - rest) / kk), V, memo)
                    continue
            p = pool.get(S.hash[lf])
            setleaf(S, lf, rnd.choice(list(p)) if p and rnd.random() < 0.7 else rnd.randrange(0, 1 << rnd.choice([1, 2, 4, 8, 12, 20])), V, memo)
        except Undef:
            return False
    return False


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            return False
        if len(a) == len(b) == 3 and a[0] == 'p' and b[0] == 'p':
            return a[1] == b[1] and a[2] == b[2]
        return a[:2] == b[:2]
    if a == b:
        return True
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-13 + getattr(a, 'tol', 0) + getattr(b, 'tol', 0)
    return False


def describe(S, r, V):
    out = {}
    for i in support(S, r)[:12]:
        try:
            out[show_node(S, i)] = repr(evaluate(S, i, V, Env()))[:40]
        except Exception:
            pass
    return out
