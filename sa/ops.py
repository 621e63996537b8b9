"""Integer/float operations over the term domain (bit-vector semantics by
representing a w-bit value by an integer congruent to it modulo 2^w)."""
import math
from terms import *
import terms as tm


def mk_fdiv(l, d, st=None):
    """floor(l / d), d > 0 const"""
    if d == 1:
        return l
    if not l.t:
        return const(l.c // d)
    q, r = {}, {}
    for a, k in l.t:
        if k % d == 0:
            q[a] = k // d
        else:
            r[a] = k
    cq, cr = divmod(l.c, d)
    if not r:
        return mklin(cq, q)
    B = mklin(cr, r)
    lo, hi = st.iv0(B) if st else static_iv(B)
    if lo != -INF and hi != INF and lo // d == hi // d:
        return mklin(cq + lo // d, q)
    # move part of the remainder with small coefs: floor((d'*X + y)/d)
    Q = mklin(cq, q)
    a = lone(B)
    if a is not None:
        if a.op == 'fdiv':
            return add(Q, mk_fdiv(a.a[0], a.a[1] * d, st))
        if a.op == 'mod' and a.a[1] % d == 0:
            return add(Q, mk_mod(mk_fdiv(a.a[0], d, st), a.a[1] // d, st))
    it = _one_ite(B)
    if it is not None:
        c, x, y = it
        return add(Q, ite(c, mk_fdiv(x, d, st), mk_fdiv(y, d, st)))
    # common gcd split: (g*X + y) with 0<=y<g, g | d
    g = 0
    for _, k in B.t:
        g = math.gcd(g, k)
    for gg in (g,):
        if gg > 1 and d % gg == 0 and 0 <= B.c < d:
            X = mklin(B.c // gg, tuple((a, k // gg) for a, k in B.t))
            return add(Q, mk_fdiv(X, d // gg, st))
    # drop low-order part: sort atoms by coef, try splitting B = hi*m + lo with lo in [0,m), m | d
    ks = sorted(set(abs(k) for _, k in B.t))
    if len(ks) > 1:
        for m in reversed(ks[1:]):
            if d % m:
                continue
            hi_t = tuple((a, k // m) for a, k in B.t if k % m == 0)
            lo_t = tuple((a, k) for a, k in B.t if k % m)
            if not lo_t or not hi_t:
                continue
            LB = mklin(B.c % m, lo_t)
            l1, h1 = st.iv0(LB) if st else static_iv(LB)
            if l1 >= 0 and h1 < m:
                return add(Q, mk_fdiv(mklin(B.c // m, hi_t), d // m, st))
    slo = lo // d if lo != -INF else -INF
    shi = hi // d if hi != INF else INF
    s0, s1 = static_iv(B)
    t = atom('fdiv', B, d, lo=s0 // d if s0 != -INF else -INF, hi=s1 // d if s1 != INF else INF)
    return add(Q, lin(t))


def _one_ite(l):
    """l = k*ite(c,x,y)+c0 whose branches are all constant (or nested constant ites)"""
    if len(l.t) == 1 and l.t[0][0].op == 'ite':
        a, k = l.t[0]
        if _const_ite(a, 0):
            c, x, y = a.a
            return c, addc(scale(x, k), l.c), addc(scale(y, k), l.c)
    return None


def _const_ite(a, d):
    if d > 40:
        return False
    c, x, y = a.a
    for b in (x, y):
        if b.t:
            if len(b.t) == 1 and b.t[0][0].op == 'ite' and _const_ite(b.t[0][0], d + 1):
                continue
            return False
    return True


def congruent(l, m, memo):
    """a simpler term congruent to l mod m: choices between congruent values are not made"""
    r = memo.get(l.id)
    if r is not None:
        return r
    out = l
    if l.ite and not l.isf:
        ch, acc = False, const(l.c)
        for a, k in l.t:
            x = lin(a)
            if a.op == 'ite' and isinstance(a.a[1], Lin) and isinstance(a.a[2], Lin):
                g = m // math.gcd(k, m)
                u, v = congruent(a.a[1], g, memo if g == m else {}), congruent(a.a[2], g, memo if g == m else {})
                d = sub(u, v)
                if not d.t and d.c % g == 0:
                    x, ch = v, True
                elif u is not a.a[1] or v is not a.a[2]:
                    x, ch = ite(a.a[0], u, v), True
            acc = add(acc, scale(x, k))
        if ch:
            out = acc
    memo[l.id] = out
    return out


def mk_mod(l, m, st=None):
    """l mod m in [0, m), m > 0 const"""
    if m == 1:
        return ZERO
    if not l.t:
        return const(l.c % m)
    if len(l.t) > 1 and l.ite:
        l2 = congruent(l, m, {})
        if l2 is not l and len(l2.t) <= len(l.t):
            l = st.simp(l2) if st is not None else l2
            if not l.t:
                return const(l.c % m)
    # reduce coefficients
    ch = False
    r = {}
    for a, k in l.t:
        k2 = k % m
        if k2 > m // 2 and k < 0:
            k2 -= m
        if k2 == 0:
            continue
        r[a] = k2
    l2 = mklin(l.c % m, r)
    if not l2.t:
        return const(l2.c % m)
    # prefer the original if it is in range
    for cand_ in (l, l2):
        lo, hi = st.iv0(cand_) if st else static_iv(cand_)
        if lo != -INF and hi != INF and lo // m == hi // m:
            return addc(cand_, -(lo // m) * m)
    if st is not None:
        for cand_ in (l, l2):
            lo, hi = st.iv(cand_)
            if lo != -INF and hi != INF and lo // m == hi // m:
                return addc(cand_, -(lo // m) * m)
    lo, hi = st.iv(l) if st else static_iv(l)
    if lo != -INF and hi != INF and hi // m - lo // m == 1:
        # two periods: explicit gate at the boundary
        b = (hi // m) * m
        c = rng(l, b, None)
        return ite(c, addc(l, -b), addc(l, -b + m))
    lc = l2
    lo, hi = static_iv(lc)
    if l2.c > m // 2:
        lc = addc(l2, -m)
    a = lone(lc)
    if a is not None and a.op == 'mod' and a.a[1] % m == 0:
        return mk_mod(a.a[0], m, st)
    it = _one_ite(lc)
    if it is not None:
        c, x, y = it
        return ite(c, mk_mod(x, m, st), mk_mod(y, m, st))
    # split out low part when the high part is a multiple of g and low in [0,g)
    g = 0
    if lc.c == 0 or True:
        for _, k in lc.t:
            g = math.gcd(g, k)
        g = math.gcd(g, m)
        if g > 1 and 0 <= lc.c % m:
            X = mklin((lc.c % m) // g, tuple((a, k // g) for a, k in lc.t))
            return addc(scale(mk_mod(X, m // g, st), g), (lc.c % m) % g)
    ks = sorted(set(abs(k) for _, k in lc.t))
    if len(ks) > 1:
        for mm in reversed(ks[1:]):
            if m % mm:
                continue
            hi_t = tuple((a, k // mm) for a, k in lc.t if k % mm == 0)
            lo_t = tuple((a, k) for a, k in lc.t if k % mm)
            if not lo_t or not hi_t:
                continue
            cc = lc.c % m
            LB = mklin(cc % mm, lo_t)
            l1, h1 = st.iv0(LB) if st else static_iv(LB)
            if l1 >= 0 and h1 < mm:
                return add(LB, scale(mk_mod(mklin(cc // mm, hi_t), m // mm, st), mm))
    t = atom('mod', lc, m, lo=0, hi=m - 1)
    return lin(t)


def urep(l, w, st):
    l = st.simp(l)
    return mk_mod(l, 1 << w, st)


def srep(l, w, st):
    l = st.simp(l)
    h = 1 << (w - 1)
    lo, hi = st.iv(l)
    if lo >= -h and hi < h:
        return l
    u = mk_mod(l, 1 << w, st)
    lo, hi = st.iv(u)
    if hi < h:
        return u
    if lo >= h:
        return addc(u, -(1 << w))
    # constant-leaf ites: map through
    it = _one_ite(u)
    if it is not None:
        c, x, y = it
        return ite(c, srep(x, w, st), srep(y, w, st))
    a = lone(u)
    if a is not None and a.op == 'ite':
        c, x, y = a.a
        sx, sy = static_iv(x), static_iv(y)
        if (sx[1] < h or sx[0] >= h) and (sy[1] < h or sy[0] >= h):
            return ite(c, x if sx[1] < h else addc(x, -(1 << w)), y if sy[1] < h else addc(y, -(1 << w)))
    c = rng(u, h, None)
    return ite(c, addc(u, -(1 << w)), u)


def bitgroups(m, w):
    """contiguous set-bit groups of mask m: [(start, len)]"""
    g, i = [], 0
    while i < w:
        if m >> i & 1:
            j = i
            while j < w and m >> j & 1:
                j += 1
            g.append((i, j - i))
            i = j
        else:
            i += 1
    return g


def ext(u, s, n, st):
    """bits s..s+n-1 of the non-negative u"""
    return mk_mod(mk_fdiv(u, 1 << s, st), 1 << n, st)


def and_(a, b, w, st):
    a, b = st.simp(a), st.simp(b)
    if not a.t:
        a, b = b, a
    if not b.t:
        m = b.c % (1 << w)
        if m == 0:
            return ZERO
        if m == (1 << w) - 1:
            return a
        ua = urep(a, w, st)
        if not ua.t:
            return const(ua.c & m)
        it = _one_ite(ua)
        if it is not None:
            c, x, y = it
            return ite(c, and_(x, b, w, st), and_(y, b, w, st))
        lo, hi = st.iv0(ua)
        nb = int(hi).bit_length() if hi != INF else w
        m &= (1 << nb) - 1
        if m == (1 << nb) - 1:
            return ua
        gs = bitgroups(m, w)
        if len(gs) <= 4:
            r = ZERO
            for s, n in gs:
                r = add(r, scale(ext(ua, s, n, st), 1 << s))
            return r
    ua, ub = urep(a, w, st), urep(b, w, st)
    if ua is ub:
        return ua
    for x, y in ((ua, ub), (ub, ua)):
        it = _one_ite(x)
        if it is not None:
            c, p, q = it
            return ite(c, and_(p, y, w, st), and_(q, y, w, st))
    if ua.id > ub.id:
        ua, ub = ub, ua
    h = min(static_iv(ua)[1], static_iv(ub)[1])
    return lin(atom('and', ua, ub, lo=0, hi=min(h, (1 << w) - 1)))


def _tz(l, st):
    """number of guaranteed trailing zero bits"""
    if not l.t:
        return 64 if l.c == 0 else (l.c & -l.c).bit_length() - 1
    z = 64 if l.c == 0 else (l.c & -l.c).bit_length() - 1
    for a, k in l.t:
        z = min(z, (k & -k).bit_length() - 1)
    return z


def _pieces(l, st):
    """bit intervals that may be set in a sum of shifted bit fields (None: not of that form)"""
    if l.c < 0 or len(l.t) > 8:
        return None
    r = [(i, i + n) for i, n in bitgroups(l.c, 64)] if l.c else []
    for a, k in l.t:
        if k <= 0 or k & (k - 1):
            return None
        lo, hi = st.iv0(lin(a))
        if lo < 0 or hi == INF:
            return None
        s = k.bit_length() - 1
        r.append((s, s + int(hi).bit_length()))
    return r


def _disjoint(p, q):
    return all(b <= c or d <= a for a, b in p for c, d in q)


def or_(a, b, w, st):
    ua, ub = urep(a, w, st), urep(b, w, st)
    if not ua.t and not ub.t:
        return const(ua.c | ub.c)
    if ua.t and ub.t and (len(ua.t) > 1 or len(ub.t) > 1):
        p, q = _pieces(ua, st), _pieces(ub, st)
        if p is not None and q is not None and _disjoint(p, q) and all(_disjoint([x], [y]) for z in (p, q) for i, x in enumerate(z) for y in z[:i]):
            return add(ua, ub)
    for x, y in ((ua, ub), (ub, ua)):
        hi = st.iv0(x)[1]
        if hi != INF and hi < (1 << _tz(y, st)):
            return add(x, y)
    if not ua.t:
        ua, ub = ub, ua
    if not ub.t:
        return add(addc(ua, ub.c), and_(ua, ub, w, st), -1)
    if ua is ub:
        return ua
    for x, y in ((ua, ub), (ub, ua)):
        it = _one_ite(x)
        if it is not None:
            c, p, q = it
            return ite(c, or_(p, y, w, st), or_(q, y, w, st))
        t = lone(x)
        if t is not None and t.op == 'ite':
            c, p, q = t.a
            if not q.t and q.c == 0 or not p.t and p.c == 0:
                return ite(c, or_(p, y, w, st), or_(q, y, w, st))
    if ua.id > ub.id:
        ua, ub = ub, ua
    h = max(static_iv(ua)[1], static_iv(ub)[1])
    hb = (1 << int(h).bit_length()) - 1 if h != INF else (1 << w) - 1
    return lin(atom('or', ua, ub, lo=0, hi=min(hb, (1 << w) - 1)))


def xor_(a, b, w, st):
    a, b = st.simp(a), st.simp(b)
    if not a.t:
        a, b = b, a
    if not b.t:
        m = b.c % (1 << w)
        if m == 0:
            return a
        if m == (1 << w) - 1:
            return addc(scale(a, -1), -1)
        ua = urep(a, w, st)
        if not ua.t:
            return const(ua.c ^ m)
        # a ^ m = a + m - 2*(a & m)
        return add(addc(ua, m), and_(ua, const(m), w, st), -2)
    ua, ub = urep(a, w, st), urep(b, w, st)
    if ua is ub:
        return ZERO
    if ua.id > ub.id:
        ua, ub = ub, ua
    h = max(static_iv(ua)[1], static_iv(ub)[1])
    hb = (1 << int(h).bit_length()) - 1 if h != INF else (1 << w) - 1
    return lin(atom('xor', ua, ub, lo=0, hi=min(hb, (1 << w) - 1)))


def mul_(a, b, w, st):
    a, b = st.simp(a), st.simp(b)
    if not a.t:
        a, b = b, a
    if not b.t:
        k = b.c
        if k >= 1 << (w - 1) and w > 1:
            k -= 1 << w
        return scale(a, k)
    for x, y in ((a, b), (b, a)):
        it = _one_ite(x)
        if it is not None:
            c, p, q = it
            return ite(c, mul_(p, y, w, st), mul_(q, y, w, st))
    if len(a.t) == 1 and len(b.t) == 1 and a.c == 0 and b.c == 0:
        k = a.t[0][1] * b.t[0][1]
        x, y = lin(a.t[0][0]), lin(b.t[0][0])
    else:
        k, x, y = 1, a, b
    if x.id > y.id:
        x, y = y, x
    l1, h1 = static_iv(x)
    l2, h2 = static_iv(y)
    ps = [p * q if not ((p == 0 and abs(q) == INF) or (q == 0 and abs(p) == INF)) else 0 for p in (l1, h1) for q in (l2, h2)]
    return scale(lin(atom('mul', x, y, lo=min(ps), hi=max(ps))), k)


def shl_(a, b, w, st):
    b = st.simp(b)
    if not b.t:
        return scale(st.simp(a), 1 << (b.c % 64)) if 0 <= b.c < w else const(0)
    a = st.simp(a)
    ub = urep(b, w, st)
    lo, hi = st.iv(ub)
    it = _one_ite(ub)
    if it is not None:
        c, p, q = it
        return ite(c, shl_(a, p, w, st), shl_(a, q, w, st))
    if hi - lo <= 8 and hi < w:
        r = None
        for v in range(int(hi), int(lo) - 1, -1):
            x = scale(a, 1 << v)
            r = x if r is None else ite(rng(ub, v, v), x, r)
        return r
    al, ah = static_iv(a)
    bl, bh = static_iv(ub)
    l, h = -INF, INF
    if al >= 0:
        l = 0
        if ah != INF and bh <= 64:
            h = ah << int(bh)
    return lin(atom('shl', a, ub, lo=l, hi=h))


def lshr_(a, b, w, st):
    b = st.simp(b)
    ua = urep(a, w, st)
    if not b.t:
        return mk_fdiv(ua, 1 << b.c, st) if 0 <= b.c < w else const(0)
    ub = urep(b, w, st)
    it = _one_ite(ub)
    if it is not None:
        c, p, q = it
        return ite(c, lshr_(a, p, w, st), lshr_(a, q, w, st))
    lo, hi = st.iv(ub)
    if hi - lo <= 8 and hi < w:
        r = None
        for v in range(int(hi), int(lo) - 1, -1):
            x = mk_fdiv(ua, 1 << v, st)
            r = x if r is None else ite(rng(ub, v, v), x, r)
        return r
    return lin(atom('lshr', ua, ub, lo=0, hi=static_iv(ua)[1]))


def ashr_(a, b, w, st):
    b = st.simp(b)
    sa = srep(a, w, st)
    if not b.t:
        return mk_fdiv(sa, 1 << b.c, st)
    if st.iv(sa)[0] >= 0:
        return lshr_(a, b, w, st)
    l, h = static_iv(sa)
    return lin(atom('ashr', sa, urep(b, w, st), lo=min(l, 0), hi=max(h, 0)))


def divs(op, a, b, w, st):
    if op in ('udiv', 'urem'):
        x, y = urep(a, w, st), urep(b, w, st)
        if not y.t and y.c > 0:
            return mk_fdiv(x, y.c, st) if op == 'udiv' else mk_mod(x, y.c, st)
        for p, isx in ((y, False), (x, True)):
            it = _one_ite(p)
            if it is not None:
                c, u, v = it
                return ite(c, divs(op, u if isx else a, b if isx else u, w, st),
                           divs(op, v if isx else a, b if isx else v, w, st))
        h = static_iv(x)[1]
        if op == 'urem':
            yh = st.iv(y)[1]
            return lin(atom('urem', x, y, lo=0, hi=h))
        return lin(atom('udiv', x, y, lo=0, hi=h))
    x, y = srep(a, w, st), srep(b, w, st)
    xl, xh = st.iv(x)
    if not y.t and y.c != 0:
        d = y.c
        if xl >= 0 and d > 0:
            return mk_fdiv(x, d, st) if op == 'sdiv' else mk_mod(x, d, st)
        if not x.t:
            q = abs(x.c) // abs(d) * (1 if (x.c >= 0) == (d > 0) else -1)
            return const(q) if op == 'sdiv' else const(x.c - q * d)
        if d > 0:
            if xh <= 0:
                n = scale(x, -1)
                return scale(mk_fdiv(n, d, st), -1) if op == 'sdiv' else scale(mk_mod(n, d, st), -1)
            c = rng(x, 0, None)
            n = scale(x, -1)
            if op == 'sdiv':
                return ite(c, mk_fdiv(x, d), scale(mk_fdiv(n, d), -1))
            return ite(c, mk_mod(x, d), scale(mk_mod(n, d), -1))
    m = max(abs(v) for v in static_iv(x))
    return lin(atom(op, x, y, lo=-m, hi=m))


def icmp(pred, a, b, w, st):
    a, b = st.simp(a), st.simp(b)
    if pred in ('eq', 'ne'):
        d = sub(a, b)
        lo, hi = st.iv(d)
        if not (lo > -(1 << w) and hi < (1 << w)):
            ua, ub = urep(a, w, st), urep(b, w, st)
            d = sub(ua, ub)
        c = rng(d, 0, 0)
        return c if pred == 'eq' else cnot(c)
    if pred[0] == 'u':
        x, y = urep(a, w, st), urep(b, w, st)
    else:
        x, y = srep(a, w, st), srep(b, w, st)
    d = sub(x, y)
    p = pred[1:]
    if p == 'lt':
        return rng(d, None, -1)
    if p == 'le':
        return rng(d, None, 0)
    if p == 'gt':
        return rng(d, 1, None)
    return rng(d, 0, None)


# ---- floats
def i2f(l, st=None):
    """exact conversion of an integer Lin to a real Lin"""
    if not l.t:
        return fconst(l.c)
    d = {}
    c = float(l.c)
    for a, k in l.t:
        fa = _i2fa(a)
        for x, kk in fa.t:
            d[x] = d.get(x, 0.0) + kk * k
        c += fa.c * k
    return mklin(c, d, True)


def _i2fa(a):
    if a.op == 'ite':
        c, x, y = a.a
        return ite(c, i2f(x), i2f(y))
    return lin(atom('i2f', a, lo=a.lo, hi=a.hi, isf=True))


def fmul(a, b, st):
    a, b = st.simp(a), st.simp(b)
    if not a.t:
        a, b = b, a
    if not b.t:
        return scale(a, b.c)
    if len(a.t) == 1 and len(b.t) == 1 and a.c == 0 and b.c == 0:
        k = a.t[0][1] * b.t[0][1]
        x, y = a.t[0][0], b.t[0][0]
        for p, q in ((x, y), (y, x)):
            if p.op == 'ite' and all(not z.t for z in p.a[1:]):
                return scale(ite(p.a[0], fmul(p.a[1], lin(q), st), fmul(p.a[2], lin(q), st)), k)
        x, y = lin(x), lin(y)
    else:
        k, x, y = 1.0, a, b
    if x.id > y.id:
        x, y = y, x
    return scale(lin(atom('fmul', x, y, isf=True, **_muliv(x, y))), k)


def _muliv(x, y):
    l1, h1 = static_iv(x)
    l2, h2 = static_iv(y)
    ps = [p * q if not ((p == 0 and abs(q) == INF) or (q == 0 and abs(p) == INF)) else 0.0 for p in (l1, h1) for q in (l2, h2)]
    return {'lo': min(ps), 'hi': max(ps)}


def fdiv(a, b, st):
    a, b = st.simp(a), st.simp(b)
    if not b.t and b.c != 0:
        return scale(a, 1.0 / b.c)
    if not a.t and a.c == 0:
        return a
    for p, isa in ((b, False),):
        t = lone(p)
        if t is not None and t.op == 'ite' and (not t.a[1].t or not t.a[2].t):
            return ite(t.a[0], fdiv(a, t.a[1], st), fdiv(a, t.a[2], st))
    # a/b with scalar pulled out
    k = 1.0
    if len(b.t) == 1 and b.c == 0 and b.t[0][1] != 1:
        k = 1.0 / b.t[0][1]
        b = lin(b.t[0][0])
    if len(a.t) == 1 and a.c == 0:
        k *= a.t[0][1]
        a = lin(a.t[0][0])
    return scale(lin(atom('fdivv', a, b, isf=True)), k)


def fptoi(l, signed, w, st):
    l = st.simp(l)
    if not l.t:
        v = int(l.c) if abs(l.c) < 1e18 else 0
        return const(v)
    # trunc of an integral-valued real: i2f combos with integer coefs
    if _integral(l):
        d = {}
        c = int(l.c)
        out = const(c)
        for a, k in l.t:
            out = add(out, scale(_f2ia(a), int(k)))
        return out
    t = lone(l)
    if t is not None and t.op == 'ite':
        return ite(t.a[0], fptoi(t.a[1], signed, w, st), fptoi(t.a[2], signed, w, st))
    lo, hi = static_iv(l)
    return lin(atom('ftrunc', l, lo=math.trunc(lo) if abs(lo) != INF else lo, hi=math.trunc(hi) if abs(hi) != INF else hi))


def _integral(l):
    if l.c != int(l.c):
        return False
    for a, k in l.t:
        if k != int(k):
            return False
        if not _integral_atom(a):
            return False
    return True


def _integral_atom(a, d=0):
    if a.op in ('i2f', 'round', 'ffloor', 'fceil', 'ftrnc', 'rint'):
        return True
    if a.op == 'ite' and d < 40:
        for b in a.a[1:]:
            if b.c != int(b.c):
                return False
            for x, k in b.t:
                if k != int(k) or not _integral_atom(x, d + 1):
                    return False
        return True
    return False


def _f2ia(a):
    if a.op == 'i2f':
        return lin(a.a[0])
    if a.op == 'ite':
        r = []
        for b in a.a[1:]:
            o = const(int(b.c))
            for x, k in b.t:
                o = add(o, scale(_f2ia(x), int(k)))
            r.append(o)
        return ite(a.a[0], r[0], r[1])
    return lin(atom('f2i', a, lo=a.lo, hi=a.hi))


def fround(kind, l, st):
    l = st.simp(l)
    if not l.t:
        f = {'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), 'ffloor': math.floor, 'fceil': math.ceil, 'ftrnc': math.trunc, 'rint': round}[kind]
        return fconst(float(f(l.c)))
    if _integral(l):
        return l
    t = lone(l)
    if t is not None and t.op == 'ite':
        return ite(t.a[0], fround(kind, t.a[1], st), fround(kind, t.a[2], st))
    lo, hi = static_iv(l)
    return lin(atom(kind, l, lo=math.floor(lo) if abs(lo) != INF else lo, hi=math.ceil(hi) if abs(hi) != INF else hi, isf=True))


# ---- substitution
def subst(x, m, memo):
    """substitute atoms per m (atom -> Lin) in Lin / C / Ptr terms"""
    if isinstance(x, Lin):
        if not x.t:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        out = mklin(x.c, (), x.isf)
        for a, k in x.t:
            out = add(out, scale(subst_atom(a, m, memo), k))
        memo[x] = out
        return out
    if isinstance(x, C):
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op == 'rng':
            r = rng(subst(x.a[0], m, memo), x.a[1], x.a[2])
        elif op == 'ne':
            r = cnot(rng(subst(x.a[0], m, memo), x.a[1], x.a[1]))
        elif op == 'and':
            r = cand(*[subst(y, m, memo) for y in x.a[0]])
        elif op == 'or':
            r = cor(*[subst(y, m, memo) for y in x.a[0]])
        elif op in ('flt', 'fle', 'feq'):
            r = tm._fc(op, subst(x.a[0], m, memo))
        elif op == 'not':
            r = cnot(subst(x.a[0], m, memo))
        elif op == 'b':
            t = x.a[0]
            na = tuple(subst(y, m, memo) if isinstance(y, (Lin, C)) else y for y in t.a)
            r = x if na == t.a else tm._mkc('b', atom(t.op, *na, lo=0, hi=1))
        else:
            r = x
        memo[x] = r
        return r
    from mem import Ptr, PIte, ptr, pite
    if isinstance(x, Ptr):
        return ptr(x.obj, subst(x.off, m, memo), None if x.sub is None else (subst(x.sub[0], m, memo),) + tuple(x.sub[1:]))
    if isinstance(x, PIte):
        return pite(subst(x.c, m, memo), subst(x.a, m, memo), subst(x.b, m, memo))
    return x


def subst_atom(a, m, memo):
    if a in m:
        return m[a]
    r = memo.get(a)
    if r is not None:
        return r
    if not a.a or not any(isinstance(y, (Lin, C, T)) for y in a.a):
        r = lin(a)
        memo[a] = r
        return r
    na = tuple(subst(y, m, memo) if isinstance(y, (Lin, C)) else (subst_atom(y, m, memo) if isinstance(y, T) else y) for y in a.a)
    same = True
    for p, q in zip(na, a.a):
        if isinstance(q, T):
            if lone(p) is not q:
                same = False
        elif p is not q:
            same = False
    if same:
        r = lin(a)
    elif a.op == 'ite':
        r = ite(*na)
    elif a.op == 'fdiv':
        r = mk_fdiv(na[0], na[1])
    elif a.op == 'mod':
        r = mk_mod(na[0], na[1])
    elif a.op == 'sum':
        r = na[0]
    elif a.op == 'i2f':
        r = i2f(na[0])
    elif a.op == 'f2i':
        r = fptoi(na[0], True, 64, _NOST)
    else:
        r = lin(atom(a.op, *na, lo=a.lo, hi=a.hi, isf=a.isf, fl=a.fl if a.op in ('in', 'bits', 'sbits') else None))
    memo[a] = r
    return r


class _NS:
    def simp(s, x):
        return x

    def iv(s, l):
        return static_iv(l)
    iv0 = iv


_NOST = _NS()


def depends(x, pred, memo):
    """does the term contain an atom satisfying pred"""
    if isinstance(x, (Lin, C, T)):
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = False
        if isinstance(x, Lin):
            r = any(depends(a, pred, memo) for a, _ in x.t)
        elif isinstance(x, T):
            r = pred(x) or any(depends(y, pred, memo) for y in x.a)
        else:
            r = any(depends(y, pred, memo) for y in x.a)
        memo[x] = r
        return r
    if isinstance(x, (frozenset, tuple)):
        return any(depends(y, pred, memo) for y in x)
    if hasattr(x, 'off'):
        return depends(x.off, pred, memo)
    if hasattr(x, 'c') and hasattr(x, 'b'):
        return depends(x.c, pred, memo) or depends(x.a, pred, memo) or depends(x.b, pred, memo)
    return False
