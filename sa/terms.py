"""Value domain: hash-consed terms.

  Lin   c + sum(coef * atom)      integers (exact) or reals (floats, rounding ignored)
  T     atoms (input bytes, bit fields, gated values, opaque results, ...)
  C     conditions (integer ranges over a Lin, float comparisons, opaque booleans)
  Ptr   object + Lin byte offset; PIte gated pointer; FnPtr

Every atom carries a static interval and flags saying whether it (transitively)
depends on undefined memory or on a value the analysis gave up on."""
import math
from math import gcd

INF = float('inf')
F_UNDEF, F_LOSSY, F_IN = 1, 2, 4

_ids = [0]


def nid():
    _ids[0] += 1
    return _ids[0]


class T:
    __slots__ = ('op', 'a', 'id', 'lo', 'hi', 'isf', 'fl', '_s', 'ite')

    def __hash__(s):
        return s.id

    def __repr__(s):
        return show(s)


class Lin:
    __slots__ = ('c', 't', 'isf', 'id', 'fl', '_n', 'ite', '_iv')

    def __hash__(s):
        return s.id

    def __repr__(s):
        return show(s)

    @property
    def k(s):
        return not s.t


class C:
    __slots__ = ('op', 'a', 'id', '_neg', 'fl')

    def __hash__(s):
        return s.id

    def __repr__(s):
        return show(s)


_T, _L, _C = {}, {}, {}


def atom(op, *a, lo=-INF, hi=INF, isf=False, fl=None):
    key = (op,) + a
    t = _T.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.lo, t.hi, t.isf = op, a, lo, hi, isf
        t.id = nid()
        if fl is None:
            fl = 0
            for x in a:
                f = getattr(x, 'fl', None)
                if f is not None:
                    fl |= f
        t.fl = fl
        t.ite = op == 'ite' or any(getattr(x, 'ite', False) for x in a)
        t._s = None
        _T[key] = t
    return t


def mklin(c, terms, isf=False):
    """terms: dict atom->coef or sorted tuple"""
    if isinstance(terms, dict):
        terms = tuple(sorted(((a, k) for a, k in terms.items() if k != 0), key=lambda x: x[0].id))
    if isf:
        c = float(c)
    key = (isf, c, terms)
    l = _L.get(key)
    if l is None:
        l = Lin()
        l.c, l.t, l.isf = c, terms, isf
        l.id = nid()
        fl = 0
        it = False
        for a, _ in terms:
            fl |= a.fl
            it = it or a.ite
        l.fl = fl
        l.ite = it
        l._n = None
        l._iv = None
        _L[key] = l
    return l


def const(c):
    return mklin(c, ())


def fconst(c):
    if c != c or c in (INF, -INF):
        return mklin(0.0, ((atom('fspecial', str(c), isf=True), 1.0),), True)
    return mklin(float(c), (), True)


ZERO, ONE = const(0), const(1)


def lin(a):
    return mklin(0.0 if a.isf else 0, ((a, 1.0 if a.isf else 1),), a.isf)


def add(x, y, m=1):
    """x + m*y"""
    if not y.t:
        return mklin(x.c + m * y.c, x.t, x.isf)
    if not x.t and m == 1:
        return mklin(x.c + y.c, y.t, x.isf)
    d = dict(x.t)
    for a, k in y.t:
        v = d.get(a, 0) + m * k
        if v == 0 or (x.isf and abs(v) < 1e-300):
            d.pop(a, None)
        else:
            d[a] = v
    return mklin(x.c + m * y.c, d, x.isf)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return fconst(0) if x.isf else ZERO
    if k == 1:
        return x
    return mklin(x.c * k, tuple((a, c * k) for a, c in x.t), x.isf)


def addc(x, c):
    return x if c == 0 else mklin(x.c + c, x.t, x.isf)


def static_iv(x):
    if isinstance(x, T):
        return x.lo, x.hi
    if x._iv is None:
        lo = hi = x.c
        for a, k in x.t:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        x._iv = (lo, hi)
    return x._iv


# ------------------------------------------------------------------ conditions
def _mkc(op, *a):
    key = (op,) + a
    c = _C.get(key)
    if c is None:
        c = C()
        c.op, c.a, c.id, c._neg = op, a, nid(), None
        fl = 0
        for x in a:
            f = getattr(x, 'fl', None)
            if f is not None:
                fl |= f
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    fl |= getattr(y, 'fl', 0)
        c.fl = fl
        _C[key] = c
    return c


CT, CF = _mkc('T'), _mkc('F')


def norm_k(l):
    """split integer Lin with terms: returns (K, g, c) with l == g*K + c, K.c==0, gcd 1, leading coef > 0 (g may be negative)"""
    if l._n is None:
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if l.t[0][1] < 0:
            g = -g
        K = mklin(0, tuple((a, k // g) for a, k in l.t))
        l._n = (K, g, l.c)
    return l._n


def rng(l, lo, hi):
    """lo <= l <= hi (integers; None/inf open)"""
    if lo is None:
        lo = -INF
    if hi is None:
        hi = INF
    if not l.t:
        return CT if lo <= l.c <= hi else CF
    # distribute over a lone gated atom with decidable branches
    K, g, c = norm_k(l)
    if g > 0:
        l2 = -INF if lo == -INF else -((-(lo - c)) // g)
        h2 = INF if hi == INF else (hi - c) // g
    else:
        l2 = -INF if hi == INF else -((-(hi - c)) // g) if False else (-INF if hi == INF else _cdiv(hi - c, g))
        h2 = INF if lo == -INF else _fdiv(lo - c, g)
    return rngK(K, l2, h2)


def _cdiv(a, b):
    return -((-a) // b)


def _fdiv(a, b):
    return a // b


def rngK(K, lo, hi):
    slo, shi = static_iv(K)
    if lo > hi or lo > shi or hi < slo:
        return CF
    if lo <= slo:
        lo = -INF
    if hi >= shi:
        hi = INF
    if lo == -INF and hi == INF:
        return CT
    if len(K.t) == 1 and K.t[0][0].op == 'ite' and K.t[0][1] == 1:
        r = _dist_ite(K.t[0][0], lambda v: rng(v, lo, hi), 48)
        if r is not None:
            return r
    # one-sided tightening to equalities on static bounds
    if lo == -INF and hi == slo:
        lo = slo
    if hi == INF and lo == shi:
        hi = shi
    return _mkc('rng', K, lo, hi)


def _dist_ite(t, f, depth):
    """apply f (Lin -> C) to the branches of a gated atom if at least one branch is decided"""
    c, x, y = t.a
    fx, fy = f(x), f(y)
    if fx is CT or fx is CF or fy is CT or fy is CF:
        return cite(c, fx, fy)
    return None


def cite(c, x, y):
    if c is CT:
        return x
    if c is CF:
        return y
    if x is y:
        return x
    if x is CT:
        return cor(c, y)
    if x is CF:
        return cand(cnot(c), y)
    if y is CT:
        return cor(cnot(c), x)
    if y is CF:
        return cand(c, x)
    return cor(cand(c, x), cand(cnot(c), y))


def cnot(c):
    if c._neg is not None:
        return c._neg
    op = c.op
    if op == 'T':
        r = CF
    elif op == 'F':
        r = CT
    elif op == 'rng':
        K, lo, hi = c.a
        if lo == -INF:
            r = rngK(K, hi + 1, INF)
        elif hi == INF:
            r = rngK(K, -INF, lo - 1)
        elif lo == hi:
            slo, shi = static_iv(K)
            if lo == slo:
                r = rngK(K, lo + 1, INF)
            elif hi == shi:
                r = rngK(K, -INF, lo - 1)
            else:
                r = _mkc('ne', K, lo)
        else:
            r = cor(rngK(K, -INF, lo - 1), rngK(K, hi + 1, INF))
    elif op == 'ne':
        r = rngK(c.a[0], c.a[1], c.a[1])
    elif op == 'and':
        r = cor(*[cnot(x) for x in c.a[0]])
    elif op == 'or':
        r = cand(*[cnot(x) for x in c.a[0]])
    elif op == 'flt':
        r = _fc('fle', scale(c.a[0], -1.0))
    elif op == 'fle':
        r = _fc('flt', scale(c.a[0], -1.0))
    elif op == 'not':
        r = c.a[0]
    else:
        r = _mkc('not', c)
    c._neg = r
    if r._neg is None:
        r._neg = c
    return r


def _fc(op, l):
    if not l.t:
        return CT if (l.c < 0 if op == 'flt' else l.c <= 0 if op == 'fle' else l.c == 0) else CF
    lo, hi = static_iv(l)
    if op == 'flt':
        if hi < 0:
            return CT
        if lo >= 0:
            return CF
    elif op == 'fle':
        if hi <= 0:
            return CT
        if lo > 0:
            return CF
    elif lo > 0 or hi < 0:
        return CF
    if len(l.t) == 1 and l.t[0][0].op == 'ite':
        t, k = l.t[0]
        r = _dist_ite(t, lambda v: _fc(op, addc(scale(v, k), l.c)), 48)
        if r is not None:
            return r
    # normalise scale
    k = abs(l.t[0][1])
    if k != 1:
        l = scale(l, 1.0 / k)
    if op == 'feq' and l.t[0][1] < 0:
        l = scale(l, -1.0)
    return _mkc(op, l)


def flt(l):
    return _fc('flt', l)


def fle(l):
    return _fc('fle', l)


def feq(l):
    return _fc('feq', l)


def batom(name, *a):
    return _mkc('b', atom(name, *a, lo=0, hi=1))


MAXJ = 24


def cand(*cs):
    s = []
    seen = set()
    st = list(cs)[::-1]
    while st:
        c = st.pop()
        if c is CT:
            continue
        if c is CF:
            return CF
        if c.op == 'and':
            st.extend(c.a[0])
            continue
        if c in seen:
            continue
        seen.add(c)
        s.append(c)
    # intersect ranges on the same K
    byK = {}
    out = []
    for c in s:
        if c.op == 'rng':
            K, lo, hi = c.a
            if K in byK:
                l2, h2 = byK[K]
                byK[K] = (max(lo, l2), min(hi, h2))
            else:
                byK[K] = (lo, hi)
        else:
            out.append(c)
    nes = [c for c in out if c.op == 'ne']
    for c in nes:
        if c.a[0] in byK:
            lo, hi = byK[c.a[0]]
            if not (lo <= c.a[1] <= hi):
                out.remove(c)
            elif lo == c.a[1] == hi:
                return CF
            elif lo == c.a[1]:
                byK[c.a[0]] = (lo + 1, hi)
                out.remove(c)
            elif hi == c.a[1]:
                byK[c.a[0]] = (lo, hi - 1)
                out.remove(c)
    for K, (lo, hi) in byK.items():
        r = rngK(K, lo, hi)
        if r is CF:
            return CF
        if r is CT:
            continue
        out.append(r)
    if not out:
        return CT
    so = set(out)
    for c in out:
        if cnot(c) in so:
            return CF
    # absorption with or-members
    fin = []
    for c in out:
        if c.op == 'or':
            if any(x in so for x in c.a[0]):
                continue
            rest = [x for x in c.a[0] if cnot(x) not in so]
            if len(rest) < len(c.a[0]):
                r = cor(*rest)
                if r is CF:
                    return CF
                if r.op == 'and' or r is CT:
                    return cand(*(fin + [r] + [x for x in out if x is not c and x not in fin]))
                c = r
        fin.append(c)
    if len(fin) == 1:
        return fin[0]
    if not fin:
        return CT
    return _mkc('and', frozenset(fin))


def cor(*cs):
    s = []
    seen = set()
    st = list(cs)[::-1]
    while st:
        c = st.pop()
        if c is CF:
            continue
        if c is CT:
            return CT
        if c.op == 'or':
            st.extend(c.a[0])
            continue
        if c in seen:
            continue
        seen.add(c)
        s.append(c)
    byK = {}
    out = []
    for c in s:
        if c.op == 'rng':
            byK.setdefault(c.a[0], []).append((c.a[1], c.a[2]))
        else:
            out.append(c)
    nes = {}
    for c in list(out):
        if c.op == 'ne':
            K, v = c.a
            if any(lo <= v <= hi for lo, hi in byK.get(K, ())):
                return CT
            if K in nes and nes[K] != v:
                return CT
            nes[K] = v
            byK.pop(K, None)
    for K, rs in byK.items():
        rs.sort()
        cur = None
        for lo, hi in rs:
            if cur is None:
                cur = [lo, hi]
            elif lo <= cur[1] + 1:
                cur[1] = max(cur[1], hi)
            else:
                out.append(rngK(K, cur[0], cur[1]))
                cur = [lo, hi]
        r = rngK(K, cur[0], cur[1])
        if r is CT:
            return CT
        out.append(r)
    so = set(out)
    for c in out:
        if cnot(c) in so:
            return CT
    fin = []
    for c in out:
        if c.op == 'and':
            if any(x in so for x in c.a[0]):
                continue
            rest = [x for x in c.a[0] if cnot(x) not in so]
            if len(rest) < len(c.a[0]):
                r = cand(*rest)
                if r is CT:
                    return CT
                if r.op == 'or' or r is CF:
                    return cor(*(fin + [r] + [x for x in out if x is not c and x not in fin]))
                if r in so:
                    continue
                return cor(*(fin + [r] + [x for x in out if x is not c and x not in fin]))
        fin.append(c)
    # a&x | a&y -> a & (x|y)
    if 1 < len(fin) <= 6 and all(c.op == 'and' for c in fin):
        common = frozenset.intersection(*[c.a[0] for c in fin])
        if common:
            rest = [cand(*(c.a[0] - common)) for c in fin]
            return cand(*common, cor(*rest))
    if len(fin) == 1:
        return fin[0]
    if not fin:
        return CF
    return _mkc('or', frozenset(fin))


def csize(c, lim=200):
    if c.op in ('and', 'or'):
        n = 0
        for x in c.a[0]:
            n += csize(x, lim)
            if n > lim:
                return n
        return n
    return 1


# ------------------------------------------------------------------ gated values
def ite(c, x, y):
    """gated Lin"""
    if c is CT:
        return x
    if c is CF:
        return y
    if x is y:
        return x
    # a choice of constants on a two-valued integer is linear
    if not x.t and not y.t and not x.isf and c.op == 'rng':
        K, lo, hi = c.a
        if not K.isf and static_iv(K) == (0, 1):
            if lo == 1:
                return addc(scale(K, x.c - y.c), y.c)
            if hi == 0:
                return addc(scale(K, y.c - x.c), x.c)
    # pull out a common part: ite(c, r+u, r+v)
    n = cnot(c)
    if n.id < c.id:
        c, x, y = n, y, x
    for _ in range(2):
        if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0].op == 'ite':
            cc, a, b = x.t[0][0].a
            if cc is c:
                x = a
        if len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1 and y.t[0][0].op == 'ite':
            cc, a, b = y.t[0][0].a
            if cc is c:
                y = b
    if x is y:
        return x
    # ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1 and y.t[0][0].op == 'ite':
        d, a, b = y.t[0][0].a
        if a is x:
            return ite(cor(c, d), x, b)
        if b is x:
            return ite(cor(c, cnot(d)), x, a)
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0].op == 'ite':
        d, a, b = x.t[0][0].a
        if a is y:
            return ite(cand(c, cnot(d)), b, y)
        if b is y:
            return ite(cand(c, d), a, y)
    xl, xh = static_iv(x)
    yl, yh = static_iv(y)
    t = atom('ite', c, x, y, lo=min(xl, yl), hi=max(xh, yh), isf=x.isf)
    return lin(t)


def b2i(c):
    return ite(c, ONE, ZERO)


def lone(l, op=None):
    """the atom if l is exactly 1*atom"""
    if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1 and (op is None or l.t[0][0].op == op):
        return l.t[0][0]
    return None


# ------------------------------------------------------------------ show
def show(x, d=0):
    if isinstance(x, Lin):
        if not x.t:
            return str(x.c)
        p = []
        for a, k in x.t:
            p.append((('%g*' % k if x.isf else '%d*' % k) if k != 1 else '') + show(a, d + 1))
        if x.c:
            p.append(str(x.c))
        return '(' + ' + '.join(p) + ')' if len(p) > 1 else p[0]
    if isinstance(x, T):
        if d > 6:
            return x.op + '(..)'
        if x.op in ('in', 'bits', 'sbits'):
            return '%s[%s]' % (x.op, ','.join(show(y, d + 1) for y in x.a))
        return '%s(%s)' % (x.op, ','.join(show(y, d + 1) for y in x.a))
    if isinstance(x, C):
        if d > 8:
            return '..'
        if x.op == 'rng':
            K, lo, hi = x.a
            if lo == hi:
                return '%s==%s' % (show(K, d + 1), lo)
            if lo == -INF:
                return '%s<=%s' % (show(K, d + 1), hi)
            if hi == INF:
                return '%s>=%s' % (show(K, d + 1), lo)
            return '%s in [%s,%s]' % (show(K, d + 1), lo, hi)
        if x.op == 'ne':
            return '%s!=%s' % (show(x.a[0], d + 1), x.a[1])
        if x.op in ('and', 'or'):
            return '(' + (' & ' if x.op == 'and' else ' | ').join(sorted(show(y, d + 1) for y in x.a[0])) + ')'
        if x.op in ('flt', 'fle', 'feq'):
            return '%s%s0' % (show(x.a[0], d + 1), {'flt': '<', 'fle': '<=', 'feq': '=='}[x.op])
        if x.op == 'not':
            return '!' + show(x.a[0], d + 1)
        if x.op == 'b':
            return show(x.a[0], d + 1)
        return x.op
    return str(x)
