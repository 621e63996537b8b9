"""Memory: per object a chain of layers; pointers; program points' states."""
from terms import *
import terms as tm


OBJS = {}
LOOPS = {}
ATOMS = {}
SFX = {}      # cell recurrence over a varying position -> how to read the initial content at any position
HVREC = {}    # havoc id of a loop head -> (interpreter, head state, object): what was there
HVNAME = {}   # havoc id -> (occurrence, part, start)


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'di', 'const', 'bytes', 'elem', 'tag', 'lay', 'key', 'label', 'par', 'cells')

    def __hash__(s):
        return s.id

    def __init__(s, name, size, kind, di=None, const=False, isbytes=False):
        s.id = nid()
        s.name, s.size, s.kind, s.di, s.const, s.bytes = name, size, kind, di, const, isbytes
        s.tag = None
        s.lay = None
        s.key = None
        s.label = s.par = s.cells = None
        OBJS[s.id] = s

    def __repr__(s):
        return s.name


class Ptr:
    __slots__ = ('obj', 'off', 'sub')
    _c = {}

    def __repr__(s):
        return '&%s+%s' % (s.obj.name, show(s.off))


def ptr(obj, off=ZERO, sub=None):
    """sub: (start Lin, size int) of the array the pointer was derived from"""
    k = (obj.id, off.id, None if sub is None else (sub[0].id,) + tuple(sub[1:]))
    p = Ptr._c.get(k)
    if p is None:
        p = Ptr()
        p.obj, p.off, p.sub = obj, off, sub
        Ptr._c[k] = p
    return p


class PIte:
    __slots__ = ('c', 'a', 'b')
    _c = {}

    def __repr__(s):
        return '(%s ? %r : %r)' % (show(s.c), s.a, s.b)


def pite(c, a, b):
    if c is CT:
        return a
    if c is CF:
        return b
    if a is b:
        return a
    n = cnot(c)
    if n.id < c.id:
        c, a, b = n, b, a
    k = (c.id, id(a), id(b))
    p = PIte._c.get(k)
    if p is None:
        p = PIte()
        p.c, p.a, p.b = c, a, b
        PIte._c[k] = p
    return p


NULLOBJ = Obj('NULL', 0, 'null')
NULL = ptr(NULLOBJ)


class FnPtr:
    __slots__ = ('name', 'fn')
    _c = {}

    def __repr__(s):
        return '&fn ' + s.name


def fnptr(name, fn=None):
    k = (name, id(fn))
    p = FnPtr._c.get(k)
    if p is None:
        p = FnPtr()
        p.name, p.fn = name, fn
        FnPtr._c[k] = p
    return p


class Agg:
    __slots__ = ('v',)

    def __init__(s, v):
        s.v = v


# ---- chain nodes -----------------------------------------------------------
class Node:
    __slots__ = ('k', 'a', 'parent', 'id', 'own')

    def __init__(s, k, a, parent, own=None):
        s.k, s.a, s.parent, s.own = k, a, parent, own
        s.id = nid()

    def __repr__(s):
        return '<%s %d>' % (s.k, s.id)
# kinds: 'D' a=dict off->(size,val); 'W' a=(off,size,val); 'A' a=(k,n,off,size,val,cond)
#        'F' a=(lo,hi,byte Lin|None undef); 'Y' a=(lo,hi,srcnode,srcobj,srcoff); 'H' a=(lo,hi,uid)
#        'I' a=(cond,n1,n2); 'B' a=(kind,obj)


class PNode:
    __slots__ = ('c', 'p', 'd')

    def __init__(s, c, p):
        s.c, s.p = c, p
        s.d = p.d + 1 if p is not None else 0


class Dead(Exception):
    pass


_tok = [0]


class St:
    __slots__ = ('path', 'env', 'facts', 'mem', 'phis', 'tok', 'rel', 'ors', 'eqs', 'sc', 'ivc', 'ghost')

    def __init__(s):
        s.path = PNode(CT, None)
        s.env = {}
        s.facts = {}
        s.mem = {}
        s.phis = {}
        s.rel = {}
        s.ors = ()
        s.eqs = {}
        s.sc = {}
        s.ivc = {}
        s.ghost = {}
        _tok[0] += 1
        s.tok = _tok[0]

    def copy(s):
        n = St.__new__(St)
        n.path, n.env, n.facts, n.mem = s.path, dict(s.env), dict(s.facts), dict(s.mem)
        n.phis, n.rel, n.ors, n.eqs = dict(s.phis), dict(s.rel), s.ors, dict(s.eqs)
        n.sc, n.ivc = {}, {}
        n.ghost = dict(s.ghost)
        _tok[0] += 2
        n.tok = _tok[0]
        s.tok = _tok[0] - 1
        return n

    # ---- intervals
    def iva(s, a):
        """interval of an atom"""
        lo, hi = a.lo, a.hi
        K = tm.lin(a)
        e = s.env.get(K)
        if e is not None:
            if e[0] > lo:
                lo = e[0]
            if e[1] < hi:
                hi = e[1]
        if a.op == 'ite':
            v = s.evalc(a.a[0], 0)
            if v is True:
                l2, h2 = s.iv0(a.a[1])
            elif v is False:
                l2, h2 = s.iv0(a.a[2])
            else:
                l2, h2 = s.iv0(a.a[1])
                l3, h3 = s.iv0(a.a[2])
                l2, h2 = min(l2, l3), max(h2, h3)
            lo, hi = max(lo, l2), min(hi, h2)
        elif a.op == 'sum':
            l2, h2 = s.iv0(a.a[0])
            lo, hi = max(lo, l2), min(hi, h2)
        elif a.op == 'fdiv':
            l2, h2 = s.iv0(a.a[0])
            d = a.a[1]
            lo = max(lo, l2 // d if l2 != -INF else lo)
            hi = min(hi, h2 // d if h2 != INF else hi)
        elif a.op == 'mod' and not a.isf:
            l2, h2 = s.iv0(a.a[0])
            if l2 >= 0 and h2 < a.a[1]:
                lo, hi = max(lo, l2), min(hi, h2)
        elif a.op == 'mul':
            l1, h1 = s.iv0(a.a[0])
            l2, h2 = s.iv0(a.a[1])
            ps = [x * y if not ((x == 0 and abs(y) == INF) or (y == 0 and abs(x) == INF)) else 0 for x in (l1, h1) for y in (l2, h2)]
            lo, hi = max(lo, min(ps)), min(hi, max(ps))
        return lo, hi

    def iv0(s, l):
        """interval without relational facts"""
        if not l.t:
            return l.c, l.c
        r = s.ivc.get(l)
        if r is not None:
            return r
        s.ivc[l] = static_iv(l)
        lo = hi = l.c
        for a, k in l.t:
            x, y = s.iva(a)
            if k > 0:
                lo += k * x
                hi += k * y
            else:
                lo += k * y
                hi += k * x
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        if not l.isf and len(l.t) > 1:
            K, g, c = norm_k(l)
            e = s.env.get(K)
            if e is not None:
                a, b = g * e[0] + c, g * e[1] + c
                if g < 0:
                    a, b = b, a
                lo, hi = max(lo, a), min(hi, b)
        s.ivc[l] = (lo, hi)
        return lo, hi

    def iv(s, l, depth=2):
        lo, hi = s.iv0(l)
        if l.isf or depth == 0 or not s.rel or not l.t:
            return lo, hi
        ld = dict(l.t)
        nl = len(ld)
        if nl > 6:
            depth = 1
        seen = set()
        tries = exam = 0
        for a, k in l.t:
            for K2 in s.rel.get(a, ()):
                if K2.id in seen and nl > 3:
                    continue
                seen.add(K2.id)
                exam += 1
                if exam > 24:
                    return lo, hi
                e = s.env.get(K2)
                if e is None:
                    continue
                k2 = 0
                for x, y in K2.t:
                    if x is a:
                        k2 = y
                        break
                if k2 == 0 or k % k2:
                    continue
                m = k // k2
                cancelled = 0
                extra = 0
                for x, y in K2.t:
                    z = ld.get(x)
                    if z is None:
                        extra += 1
                    elif z == m * y:
                        cancelled += 1
                if extra > cancelled:
                    continue
                tries += 1
                if tries > 12:
                    return lo, hi
                rest = add(l, K2, -m)
                l1, h1 = s.iv(rest, depth - 1) if depth > 1 else s.iv0(rest)
                if m > 0:
                    l2, h2 = m * e[0] + l1, m * e[1] + h1
                else:
                    l2, h2 = m * e[1] + l1, m * e[0] + h1
                if l2 == l2 and l2 > lo:
                    lo = l2
                if h2 == h2 and h2 < hi:
                    hi = h2
        return lo, hi

    # ---- conditions
    def evalc(s, c, depth=1):
        op = c.op
        if op == 'T':
            return True
        if op == 'F':
            return False
        f = s.facts.get(c)
        if f is not None:
            return f
        if op == 'rng':
            K, lo, hi = c.a
            a, b = s.iv(K, depth + 1 if depth else 1) if depth else s.iv0(K)
            if a >= lo and b <= hi:
                return True
            if b < lo or a > hi:
                return False
            return None
        if op == 'ne':
            K, v = c.a
            a, b = s.iv(K, depth + 1 if depth else 1) if depth else s.iv0(K)
            if v < a or v > b:
                return True
            if a == b == v:
                return False
            return None
        if op == 'and':
            r = True
            for x in c.a[0]:
                v = s.evalc(x, depth)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if op == 'or':
            r = False
            for x in c.a[0]:
                v = s.evalc(x, depth)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if op in ('flt', 'fle', 'feq'):
            lo, hi = s.iv0(c.a[0])
            if op == 'flt':
                return True if hi < 0 else False if lo >= 0 else None
            if op == 'fle':
                return True if hi <= 0 else False if lo > 0 else None
            return False if (lo > 0 or hi < 0) else None
        if op == 'not':
            v = s.evalc(c.a[0], depth)
            return None if v is None else not v
        return None

    def simpc(s, c):
        """condition simplified under the facts"""
        v = s.evalc(c)
        if v is True:
            return CT
        if v is False:
            return CF
        if c.op == 'and':
            return cand(*[s.simpc(x) for x in c.a[0]])
        if c.op == 'or':
            return cor(*[s.simpc(x) for x in c.a[0]])
        if c.op in ('rng',):
            K = s.simp(c.a[0])
            if K is not c.a[0]:
                r = rng(K, c.a[1], c.a[2])
                v = s.evalc(r)
                return CT if v is True else CF if v is False else r
        elif c.op == 'ne':
            K = s.simp(c.a[0])
            if K is not c.a[0]:
                r = cnot(rng(K, c.a[1], c.a[1]))
                v = s.evalc(r)
                return CT if v is True else CF if v is False else r
        elif c.op in ('flt', 'fle', 'feq'):
            K = s.simp(c.a[0])
            if K is not c.a[0]:
                r = tm._fc(c.op, K)
                v = s.evalc(r)
                return CT if v is True else CF if v is False else r
        return c

    def simp(s, l):
        if isinstance(l, PIte):
            v = s.evalc(l.c)
            if v is True:
                return s.simp(l.a)
            if v is False:
                return s.simp(l.b)
            return l
        if isinstance(l, C):
            return s.simpc(l)
        if not isinstance(l, Lin) or not l.t:
            return l
        r = s.sc.get(l)
        if r is not None:
            return r
        out = None
        for a, k in l.t:
            rep = None
            if a.op == 'ite':
                v = s.evalc(a.a[0])
                if v is True:
                    rep = s.simp(a.a[1])
                elif v is False:
                    rep = s.simp(a.a[2])
            if rep is None and a in s.eqs:
                rep = s.simp(s.eqs[a])
            if rep is None and not a.isf:
                e = s.env.get(tm.lin(a))
                if e is not None and e[0] == e[1]:
                    rep = const(e[0])
            if rep is not None:
                if out is None:
                    out = l
                out = add(add(out, tm.lin(a), -k), rep, k)
        r = l if out is None else out
        if out is not None and out is not l:
            r = s.simp(out)
        s.sc[l] = r
        return r

    def assume(s, c, rec=True, node=True):
        """add fact c; raises Dead if contradictory"""
        if c is CT:
            return
        if c is CF:
            raise Dead()
        v = s.evalc(c)
        if v is False:
            raise Dead()
        if v is True:
            return
        if node:
            s.path = PNode(c, s.path)
        s._assume(c)
        for _ in range(2):
            if not s.ors:
                break
            ch = False
            keep = []
            for o in s.ors:
                alive = []
                t = False
                for x in o.a[0]:
                    v = s.evalc(x)
                    if v is True:
                        t = True
                        break
                    if v is None:
                        alive.append(x)
                if t:
                    ch = True
                    continue
                if not alive:
                    raise Dead()
                if len(alive) == 1:
                    s._assume(alive[0])
                    ch = True
                elif len(alive) < len(o.a[0]):
                    q = cor(*alive)
                    if q.op == 'or':
                        keep.append(q)
                    else:
                        s._assume(q)
                        ch = True
                else:
                    keep.append(o)
            s.ors = tuple(keep)
            if not ch:
                break

    def _assume(s, c):
        op = c.op
        s.sc = {}
        s.ivc = {}
        if op == 'T':
            return
        if op == 'F':
            raise Dead()
        if op == 'and':
            for x in c.a[0]:
                s._assume(x)
            return
        if op == 'or':
            alive = []
            for x in c.a[0]:
                v = s.evalc(x)
                if v is True:
                    return
                if v is None:
                    alive.append(x)
            if not alive:
                raise Dead()
            if len(alive) == 1:
                s._assume(alive[0])
                return
            # hull of single-K ranges
            if all(x.op == 'rng' and x.a[0] is alive[0].a[0] for x in alive):
                s._bound(alive[0].a[0], min(x.a[1] for x in alive), max(x.a[2] for x in alive))
            o = cor(*alive)
            if o.op != 'or':
                if o is not c:
                    s._assume(o)
            elif len(s.ors) < 24:
                s.ors = s.ors + (o,)
            s.facts[c] = True
            return
        if op == 'rng':
            s._bound(*c.a)
            return
        s.facts[c] = True
        n = cnot(c)
        s.facts[n] = False
        if op == 'ne':
            K, v = c.a
            lo, hi = s.iv0(K)
            if lo == v:
                s._bound(K, v + 1, INF)
            elif hi == v:
                s._bound(K, -INF, v - 1)

    def _bound(s, K, lo, hi, depth=0):
        clo, chi = s.iv0(K)
        lo, hi = max(lo, clo), min(hi, chi)
        # skip excluded endpoints
        while lo == lo and lo != -INF and lo <= hi and s.facts.get(tm._C.get(('ne', K, lo))) is True:
            lo += 1
        while hi != INF and lo <= hi and s.facts.get(tm._C.get(('ne', K, hi))) is True:
            hi -= 1
        if lo > hi:
            raise Dead()
        if (lo, hi) == (clo, chi) and K in s.env:
            return
        s.env[K] = (lo, hi)
        s.sc = {}
        s.ivc = {}
        if len(K.t) == 1:
            a, k = K.t[0]
            if k == 1 and a.op == 'ite' and depth < 40:
                c, x, y = a.a
                v = s.evalc(c, 0)
                if v is None:
                    lx, hx = s.iv0(x)
                    ly, hy = s.iv0(y)
                    okx = hx >= lo and lx <= hi
                    oky = hy >= lo and ly <= hi
                    if not okx and not oky:
                        raise Dead()
                    if not okx:
                        s._assume(cnot(c))
                    elif not oky:
                        s._assume(c)
                    v = s.evalc(c, 0)
                if v is not None:
                    b = x if v else y
                    if b.t:
                        s._boundlin(b, lo, hi, depth + 1)
            elif k == 1 and a.op == 'mod' and depth < 40:
                x, m = a.a
                l1, h1 = s.iv0(x)
                if l1 >= 0 and h1 < m:
                    s._boundlin(x, lo, hi, depth + 1)
            elif k == 1 and a.op == 'fdiv' and depth < 40:
                x, m = a.a
                s._boundlin(x, lo * m if lo != -INF else lo, hi * m + m - 1 if hi != INF else hi, depth + 1)
        else:
            for a, k in (K.t if len(K.t) <= 10 else ()):
                l = s.rel.get(a, ())
                if K not in l:
                    s.rel[a] = l + (K,)
            if lo == hi:
                for a, k in K.t:
                    if a.op == 'k' and abs(k) == 1 and a not in s.eqs:
                        # k*a = lo - rest
                        rest = addc(scale(add(K, tm.lin(a), -k), -1), lo)
                        s.eqs[a] = scale(rest, k)
                        break
            if depth < 3:
                for a, k in K.t:
                    if len(K.t) > 8:
                        break
                    rest = add(K, tm.lin(a), -k)
                    l1, h1 = s.iv0(rest)
                    # lo <= k*a + rest <= hi
                    if k > 0:
                        nl = -((-(lo - h1)) // k) if lo != -INF and h1 != INF else -INF
                        nh = (hi - l1) // k if hi != INF and l1 != -INF else INF
                    else:
                        nl = tm._cdiv(hi - l1, k) if hi != INF and l1 != -INF else -INF
                        nh = tm._fdiv(lo - h1, k) if lo != -INF and h1 != INF else INF
                    x, y = s.iva(a)
                    if nl > x or nh < y:
                        s._bound(tm.lin(a), nl, nh, depth + 1)

    def _boundlin(s, l, lo, hi, depth=0):
        c = rng(l, lo, hi)
        if c is CT:
            return
        if c is CF:
            raise Dead()
        if c.op == 'rng':
            s._bound(c.a[0], c.a[1], c.a[2], depth)
        else:
            s._assume(c)
