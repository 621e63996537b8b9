"""Transfer functions of library calls (libc, LLVM intrinsics, bit/byte access)."""
from terms import *
import terms as tm
from mem import *
from ops import *
import ir

N = {}


def nat(*names):
    def d(f):
        for n in names:
            N[n] = f
        return f
    return d


@nat('llvm.lifetime', 'llvm.dbg', 'llvm.va_', 'llvm.stack', 'llvm.trap_', 'detailed_log_', 'log_', 'printf', 'fprintf', 'fflush', 'free', 'perror')
def n_nop(s, fr, ins, st, a):
    if ins.ty.k == 'void':
        return st, None
    return st, s.fresh('nop', ins.ty)


@nat('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def n_memcpy(s, fr, ins, st, a):
    s.emit('memcpy', ins, st, dst=a[0], src=a[1], n=a[2])
    s.memcpy(st, a[0], a[1], urep(s.asint(a[2]), 64, st), ins)
    return st, a[0]


@nat('llvm.memset', 'memset')
def n_memset(s, fr, ins, st, a):
    d = st.simp(a[0])
    n = urep(s.asint(a[2]), 64, st)
    b = mk_mod(s.asint(a[1]), 256, st)
    if isinstance(d, Ptr):
        off = st.simp(d.off)
        s.check_access(st, d, off, n, ins, 'memset')
        s.fill(st, d.obj, off, st.simp(add(off, n)), b)
    elif isinstance(d, PIte):
        for c, q in leaves(d):
            if isinstance(q, Ptr) and q.obj is not NULLOBJ:
                s.havoc(st, q.obj)
    return st, a[0]


def leaves(p, c=CT):
    if isinstance(p, PIte):
        return leaves(p.a, cand(c, p.c)) + leaves(p.b, cand(c, cnot(p.c)))
    return [(c, p)]


@nat('__assert_fail', 'abort', 'exit', '_exit', 'llvm.trap', '_ZSt25__throw_bad_function_callv', '__cxa_throw')
def n_dead(s, fr, ins, st, a):
    s.emit('abort', ins, st, name=ins.x['callee'][1])
    return None, None


@nat('llvm.fabs', 'fabs', 'fabsf')
def n_fabs(s, fr, ins, st, a):
    x = s.fl(a[0])
    c = fle(scale(x, -1.0))
    return st, ite(c, x, scale(x, -1.0))


def rnd(kind):
    def f(s, fr, ins, st, a):
        return st, fround(kind, s.fl(a[0]), st)
    return f


N['llvm.round'] = N['round'] = N['roundf'] = rnd('round')
N['llvm.floor'] = N['floor'] = rnd('ffloor')
N['llvm.ceil'] = N['ceil'] = rnd('fceil')
N['llvm.rint'] = N['rint'] = N['llvm.nearbyint'] = rnd('rint')
N['llvm.trunc'] = rnd('ftrnc')


@nat('llvm.fmuladd')
def n_fma(s, fr, ins, st, a):
    return st, add(fmul(s.fl(a[0]), s.fl(a[1]), st), s.fl(a[2]))


@nat('llvm.maxnum', 'llvm.minnum', 'fmax', 'fmin')
def n_max(s, fr, ins, st, a):
    x, y = s.fl(a[0]), s.fl(a[1])
    c = flt(sub(x, y))
    n = ins.x['callee'][1]
    return st, (ite(c, y, x) if 'max' in n else ite(c, x, y))


@nat('lround', 'lroundf', 'llround', 'lrint', 'llrint')
def n_lround(s, fr, ins, st, a):
    n = ins.x['callee'][1]
    r = fround('rint' if 'rint' in n else 'round', s.fl(a[0]), st)
    s.emit('fptoint', ins, st, val=r, w=64, signed=True)
    return st, fptoi(r, True, 64, st)


@nat('pow', 'powf')
def n_pow(s, fr, ins, st, a):
    x, y = s.fl(a[0]), s.fl(a[1])
    if not x.t and not y.t:
        try:
            return st, fconst(x.c ** y.c)
        except Exception:
            pass
    return st, lin(atom('pow', x, y, isf=True))


@nat('ldexp', 'ldexpf')
def n_ldexp(s, fr, ins, st, a):
    e = srep(s.asint(a[1]), 32, st)
    if not e.t:
        return st, scale(s.fl(a[0]), 2.0 ** e.c)
    return st, lin(atom('ldexp', s.fl(a[0]), e, isf=True))


def fun1(name, lo=-INF, hi=INF):
    def f(s, fr, ins, st, a):
        x = s.fl(a[0])
        if name == 'sqrt' and not x.t and x.c >= 0:
            return st, fconst(x.c ** 0.5)
        return st, lin(atom('fn:' + name, x, isf=True, lo=lo, hi=hi))
    return f


N['sin'] = fun1('sin', -1, 1)
N['cos'] = fun1('cos', -1, 1)
N['atan'] = fun1('atan', -1.6, 1.6)
N['sqrt'] = N['sqrtf'] = fun1('sqrt', 0)
N['log2f'] = N['log2'] = fun1('log2')


@nat('atan2')
def n_atan2(s, fr, ins, st, a):
    return st, lin(atom('fn:atan2', s.fl(a[0]), s.fl(a[1]), isf=True, lo=-3.1416, hi=3.1416))


@nat('modf')
def n_modf(s, fr, ins, st, a):
    x = s.fl(a[0])
    i = fround('ftrnc', x, st)
    s.store(st, a[1], i, 8, ins)
    return st, sub(x, i)


@nat('exp2', 'exp2f', 'llvm.exp2')
def n_exp2(s, fr, ins, st, a):
    return n_pow(s, fr, ins, st, [fconst(2.0), a[0]])


N['llvm.pow'] = N['pow']
N['llvm.sqrt'] = N['sqrt']
N['llvm.fma'] = N['fma'] = N['fmaf'] = N['llvm.fmuladd']
N['floorf'] = N['floor']
N['ceilf'] = N['ceil']
N['rintf'] = N['nearbyint'] = N['nearbyintf'] = N['rint']
N['trunc'] = N['truncf'] = N['llvm.trunc']
N['fmaxf'] = N['fmax']
N['fminf'] = N['fmin']
N['llroundf'] = N['lrintf'] = N['lround']


@nat('fmod', 'fmodf')
def n_fmod(s, fr, ins, st, a):
    return st, lin(atom('frem', s.fl(a[0]), s.fl(a[1]), isf=True))


@nat('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')
def n_mm(s, fr, ins, st, a):
    n = ins.x['callee'][1]
    w = ins.ty.n
    rep = srep if '.s' in n else urep
    x, y = rep(s.asint(a[0]), w, st), rep(s.asint(a[1]), w, st)
    c = st.simpc(rng(sub(x, y), None, -1))
    return st, ite(c, y, x) if 'max' in n else ite(c, x, y)


@nat('llvm.usub.sat')
def n_usat(s, fr, ins, st, a):
    x, y = urep(s.asint(a[0]), ins.ty.n, st), urep(s.asint(a[1]), ins.ty.n, st)
    return st, ite(st.simpc(rng(sub(x, y), None, -1)), ZERO, sub(x, y))


@nat('llvm.abs', 'abs', 'labs', 'llabs')
def n_abs(s, fr, ins, st, a):
    x = srep(s.asint(a[0]), ins.ty.n, st)
    return st, ite(st.simpc(rng(x, None, -1)), scale(x, -1), x)


@nat('llvm.bswap')
def n_bswap(s, fr, ins, st, a):
    x = urep(s.asint(a[0]), ins.ty.n, st)
    n = ins.ty.n // 8
    r = ZERO
    for i in range(n):
        r = add(r, scale(mk_mod(mk_fdiv(x, 1 << (8 * i), st), 256, st), 1 << (8 * (n - 1 - i))))
    return st, r


@nat('llvm.expect')
def n_expect(s, fr, ins, st, a):
    return st, a[0]


@nat('llvm.assume')
def n_assume(s, fr, ins, st, a):
    return st, None


@nat('llvm.is.fpclass')
def n_fpclass(s, fr, ins, st, a):
    x = s.fl(a[0])
    m = s.asint(a[1])
    if not m.t:
        if m.c == 3:
            return st, s.isnan(x)
        if m.c == 504:      # finite
            if not x.t or all(y.op in ('i2f', 'round', 'ite') for y, _ in x.t):
                return st, CT
            return st, cnot(batom('nonfinite', x))
    return st, batom('fpclass', x, m)


# ---------------------------------------------------------------- bits
def follow(s, st, o, off, n, node=None, d=0):
    """(obj, byteoff) whose pristine input content the n bytes at o+off are, else None"""
    if node is None:
        node = s.chain(st, o)
    while True:
        if node.k == 'D':
            if node.a:
                lo, hi = st.iv(off)
                h2 = st.iv(add(off, n))[1]
                for x, e in node.a.items():
                    if x + e[0] > lo and x < h2:
                        return None
            node = node.parent
            continue
        if node.k == 'B':
            if node.a[0] in ('in',):
                return o, off
            return None
        if node.k == 'Y':
            lo, hi, sn, so, soff = node.a
            a = st.iv(sub(off, lo))
            b = st.iv(sub(add(off, n), hi))
            if a[0] >= 0 and b[1] <= 0:
                off = st.simp(add(sub(off, lo), soff))
                o, node = so, sn
                continue
            if a[1] != INF and st.iv(add(sub(off, lo), n))[1] <= 0 or b[0] - 0 >= 0 and st.iv(sub(off, hi))[0] >= 0:
                node = node.parent
                continue
            return None
        if node.k == 'I':
            v = st.evalc(node.a[0])
            if v is None:
                x, y = node.a[1], node.a[2]
                if d > 12:
                    return None
                x = follow(s, st, o, off, n, x, d + 1)
                y = x and follow(s, st, o, off, n, y, d + 1)
                return x if x and y and x[0] is y[0] and x[1] is y[1] else None
            node = node.a[1] if v else node.a[2]
            continue
        if node.k == 'W':
            woff, wsize = node.a[:2]
            if st.iv(sub(off, addc(woff, wsize)))[0] >= 0 or st.iv(sub(add(off, n), woff))[1] <= 0:
                node = node.parent
                continue
            return None
        if node.k == 'F':
            lo, hi, b = node.a
            if st.iv(sub(off, hi))[0] >= 0 or st.iv(sub(add(off, n), lo))[1] <= 0:
                node = node.parent
                continue
            return None
        return None


def bitval(s, st, p, pos, ln, signed):
    """value of ln bits at bit offset pos from pointer p (MSB first)"""
    p = st.simp(p)
    if isinstance(p, PIte):
        return s.merge_val(p.c, bitval(s, st, p.a, pos, ln, signed), bitval(s, st, p.b, pos, ln, signed))
    if not isinstance(p, Ptr):
        return s.fresh('bits', ir.ity(64))
    off = st.simp(p.off)
    bitoff = st.simp(add(scale(off, 8), pos))
    nb = mk_fdiv(addc(add(pos, ln), 7), 8, st)
    lz = st.simp(ln)
    if not lz.t and lz.c == 0:
        return ZERO
    w = lz.c if not lz.t else st.iv(lz)[1]
    first = mk_fdiv(bitoff, 8, st)
    nbytes = sub(mk_fdiv(addc(add(bitoff, ln), 7), 8, st), first)
    f = follow(s, st, p.obj, first, nbytes)
    if f is not None:
        o, boff = f
        bp = st.simp(add(bitoff, scale(sub(boff, first), 8)))
        w2 = int(min(w, 64)) if w != INF else 64
        if signed:
            return lin(atom('sbits', o.name, bp, lz, o.id, lo=-(1 << max(w2 - 1, 0)), hi=(1 << max(w2 - 1, 0)) - 1, fl=F_IN))
        return lin(atom('bits', o.name, bp, lz, o.id, lo=0, hi=(1 << w2) - 1, fl=F_IN))
    if not lz.t and not bitoff.t:
        b0 = bitoff.c // 8
        b1 = (bitoff.c + lz.c + 7) // 8
        v = ZERO
        for i in range(b0, b1):
            b = s.ld(st, s.chain(st, p.obj), p.obj, const(i), 1, None, {})
            v = add(scale(v, 256), mk_mod(s.asint(b), 256, st))
        u = ext(v, b1 * 8 - bitoff.c - lz.c, lz.c, st)
        if signed:
            return srep(u, lz.c, st)
        return u
    w2 = int(min(w, 64)) if w != INF else 64
    node = s.chain(st, p.obj)
    if signed:
        return lin(atom('obits', p.obj.id, node.id, bitoff, lz, 's', lo=-(1 << (w2 - 1)), hi=(1 << (w2 - 1)) - 1, fl=F_LOSSY))
    return lin(atom('obits', p.obj.id, node.id, bitoff, lz, 'u', lo=0, hi=(1 << w2) - 1, fl=F_LOSSY))


def chk_bits(s, st, p, pos, ln, ins, kind):
    p = st.simp(p)
    for c, q in leaves(p):
        if isinstance(q, Ptr) and q.obj.size is not None:
            end = mk_fdiv(addc(add(pos, ln), 7), 8, st)
            first = mk_fdiv(pos, 8, st)
            s.check_access(st, q, st.simp(add(q.off, first)), st.simp(sub(end, first)), ins, kind)


@nat('getbitu', 'getbits')
def n_getbit(s, fr, ins, st, a):
    sg = ins.x['callee'][1] == 'getbits'
    pos = urep(s.asint(a[1]), 32, st)
    ln = mk_mod(s.asint(a[2]), 256, st)
    s.emit('bitget', ins, st, ptr=a[0], pos=pos, len=ln, signed=sg)
    chk_bits(s, st, a[0], pos, ln, ins, 'bitread')
    return st, bitval(s, st, a[0], pos, ln, sg)


def bitstore(s, st, p, pos, ln, v, ins):
    """set bits; modelled as a layer of per-object bit writes"""
    p = st.simp(p)
    if not isinstance(p, Ptr):
        for c, q in leaves(p):
            if isinstance(q, Ptr) and q.obj is not NULLOBJ:
                s.havoc(st, q.obj)
        return
    off = st.simp(p.off)
    bitoff = st.simp(add(scale(off, 8), pos))
    ln = st.simp(ln)
    if not bitoff.t and not ln.t and ln.c <= 64:
        n = ln.c
        v = mk_mod(v, 1 << n, st)
        b0, b1 = bitoff.c // 8, (bitoff.c + n + 7) // 8
        for i in range(b0, b1):
            # bits of this byte covered: [max(8i,start), min(8i+8,end))
            s0, e0 = max(8 * i, bitoff.c), min(8 * i + 8, bitoff.c + n)
            k = e0 - s0
            part = ext(v, bitoff.c + n - e0, k, st)
            if k == 8:
                nb = part
            else:
                old = mk_mod(s.asint(s.ld(st, s.chain(st, p.obj), p.obj, const(i), 1, None, {})), 256, st)
                sh = 8 * i + 8 - e0
                hi = mk_fdiv(old, 1 << (sh + k), st)
                lo = mk_mod(old, 1 << sh, st)
                nb = add(add(scale(hi, 1 << (sh + k)), scale(part, 1 << sh)), lo)
            s.raw_store(st, p.obj, const(i), nb, 1)
        return
    first = mk_fdiv(bitoff, 8, st)
    last = mk_fdiv(addc(add(bitoff, ln), 7), 8, st)
    s.havoc(st, p.obj, first, last)


@nat('setbitu', 'setbits')
def n_setbit(s, fr, ins, st, a):
    pos = urep(s.asint(a[1]), 32, st)
    ln = urep(s.asint(a[2]), 32, st)
    v = s.asint(a[3])
    s.emit('bitset', ins, st, ptr=a[0], pos=pos, len=ln, val=v, signed='setbits' in ins.x['callee'][1])
    chk_bits(s, st, a[0], pos, ln, ins, 'bitwrite')
    bitstore(s, st, a[0], pos, ln, v, ins)
    return st, None


def bs_fields(s, st, p):
    p = st.simp(p)
    data = s.load(st, p, 8, ir.PTR)
    ln = urep(s.load(st, s.padd(p, const(8)), 4, ir.ity(32)), 32, st)
    off = urep(s.load(st, s.padd(p, const(12)), 4, ir.ity(32)), 32, st)
    return data, ln, off


def chk_bsget(s, st, data, start, ln, bl, ins):
    # start + ln <= bl holds here, so the read is in bounds when bl fits the buffer
    d = st.simp(data)
    for c, q in leaves(d):
        if isinstance(q, Ptr) and q.obj.size is not None:
            sz = q.obj.size if isinstance(q.obj.size, Lin) else const(q.obj.size)
            need = mk_fdiv(addc(bl, 7), 8, st)
            if st.evalc(rng(sub(add(q.off, need), sz), None, 0)) is True and st.iv(q.off)[0] >= 0:
                s.note(ins, 'bitread', 'proved', None, q.obj, q.off)
            else:
                chk_bits(s, st, q, start, ln, ins, 'bitread')


def mk_bsget(signed, size):
    def f(s, fr, ins, st, a):
        data, bl, off = bs_fields(s, st, a[0])
        pos = urep(s.asint(a[2]), 32, st)
        ln = urep(s.asint(a[3]), 32, st)
        start = st.simp(add(off, pos))
        ok = st.simpc(rng(sub(add(start, ln), bl), None, 0))
        s.emit('bsget', ins, st, data=data, pos=start, len=ln, ok=ok, signed=signed, out=a[1])
        if ok is not CF:
            try:
                s2 = st.copy()
                s2.assume(ok)
                chk_bsget(s, s2, data, start, ln, bl, ins)
                v = bitval(s, s2, data, start, ln, signed)
            except Dead:
                return st, CF
            if ok is CT:
                s.store(st, a[1], v, size, ins)
            else:
                p = st.simp(a[1])
                if isinstance(p, Ptr):
                    s.check_access(st, p, st.simp(p.off), const(size), ins, 'store')
                    old = s.ld(st, s.chain(st, p.obj), p.obj, st.simp(p.off), size, ir.ity(size * 8), {})
                    s.raw_store(st, p.obj, st.simp(p.off), ite(ok, v, s.asint(old)), size)
        return st, ok
    return f


N['swiftnav_bitstream_getbitu'] = mk_bsget(False, 4)
N['swiftnav_bitstream_getbits'] = mk_bsget(True, 4)
N['swiftnav_bitstream_getbitul'] = mk_bsget(False, 8)
N['swiftnav_bitstream_getbitsl'] = mk_bsget(True, 8)


@nat('swiftnav_bytestream_get_bytes')
def n_bytes(s, fr, ins, st, a):
    data, bl, off = bs_fields(s, st, a[0])
    pos = urep(s.asint(a[1]), 32, st)
    n = urep(s.asint(a[2]), 32, st)
    start = st.simp(add(off, pos))
    ok = st.simpc(rng(sub(add(start, n), bl), None, 0))
    s.emit('bsget', ins, st, data=data, pos=scale(start, 8), len=scale(n, 8), ok=ok, signed=False, out=a[3])
    if ok is CF:
        return st, CF
    s2 = st.copy()
    s2.path = PNode(ok, s2.path)
    try:
        s2.assume(ok, node=False)
    except Dead:
        return st, CF
    s.memcpy(s2, a[3], s.padd(data, start), n, ins)
    if ok is CT:
        s2.path = st.path
        return s2, CT
    # only the destination object differs
    d = st.simp(a[3])
    for c, q in leaves(d):
        if isinstance(q, Ptr) and q.obj in s2.mem:
            old = s.chain(st, q.obj)
            new = s2.mem[q.obj]
            st.mem[q.obj] = Node('I', (ok, new, old), None)
    return st, ok


# ---------------------------------------------------------------- fifo
def fifo_f(s, st, p):
    r = s.asint(s.load(st, p, 4, ir.ity(32)))
    w = s.asint(s.load(st, s.padd(p, const(4)), 4, ir.ity(32)))
    z = s.asint(s.load(st, s.padd(p, const(8)), 4, ir.ity(32)))
    p = st.simp(p)
    so = s.deref_obj(('fifo', p.obj.id if isinstance(p, Ptr) else 0, p.off.id if isinstance(p, Ptr) else 0), None, 'stream')
    so.bytes = True
    ln = sub(w, r)
    try:
        st.assume(rng(ln, 0, None), node=False)
        if not z.t:
            st.assume(rng(ln, None, z.c), node=False)
        else:
            st.assume(rng(sub(ln, z), None, 0), node=False)
    except Dead:
        pass
    return r, w, z, so, ln


def zmin(x, y, st):
    c = st.simpc(rng(sub(x, y), None, 0))
    return ite(c, x, y)


@nat('fifo_length')
def n_flen(s, fr, ins, st, a):
    return st, fifo_f(s, st, a[0])[4]


@nat('fifo_space')
def n_fsp(s, fr, ins, st, a):
    r, w, z, so, ln = fifo_f(s, st, a[0])
    return st, sub(z, ln)


@nat('fifo_peek', 'fifo_read')
def n_fpeek(s, fr, ins, st, a):
    r, w, z, so, ln = fifo_f(s, st, a[0])
    n = zmin(urep(s.asint(a[2]), 32, st), ln, st)
    s.emit('fifo', ins, st, name=ins.x['callee'][1], n=n, dst=a[1])
    s.memcpy(st, a[1], ptr(so, r), n, ins)
    if ins.x['callee'][1] == 'fifo_read':
        s.store(st, a[0], add(r, n), 4)
    return st, n


@nat('fifo_remove')
def n_frem(s, fr, ins, st, a):
    r, w, z, so, ln = fifo_f(s, st, a[0])
    n = zmin(urep(s.asint(a[1]), 32, st), ln, st)
    s.emit('fifo', ins, st, name='fifo_remove', n=n)
    s.store(st, a[0], add(r, n), 4)
    return st, n


@nat('fifo_write')
def n_fwr(s, fr, ins, st, a):
    r, w, z, so, ln = fifo_f(s, st, a[0])
    n = zmin(urep(s.asint(a[2]), 32, st), sub(z, ln), st)
    s.emit('fifo', ins, st, name='fifo_write', n=n, src=a[1])
    s.store(st, s.padd(a[0], const(4)), add(w, n), 4)
    return st, n


@nat('fifo_init')
def n_finit(s, fr, ins, st, a):
    s.store(st, a[0], ZERO, 4, ins)
    s.store(st, s.padd(a[0], const(4)), ZERO, 4, ins)
    s.store(st, s.padd(a[0], const(8)), s.asint(a[2]), 4, ins)
    s.store(st, s.padd(a[0], const(16)), a[1], 8, ins)
    return st, None


# ---------------------------------------------------------------- opaque pure functions of memory
@nat('crc24q', 'crc24q_bits', 'crc16_ccitt')
def n_crc(s, fr, ins, st, a):
    nm = ins.x['callee'][1]
    if nm == 'crc24q_bits':
        buf, n, init = a[1], mk_fdiv(addc(s.asint(a[2]), 7), 8, st), a[0]
    else:
        buf, n, init = a[0], urep(s.asint(a[1]), 32, st), a[2]
    p = st.simp(buf)
    key = None
    if isinstance(p, Ptr):
        s.check_access(st, p, st.simp(p.off), n, ins, 'read')
        f = follow(s, st, p.obj, st.simp(p.off), n)
        if f is not None:
            key = ('pr', f[0].id, f[1])
        else:
            key = ('ch', s.chain(st, p.obj).id, st.simp(p.off))
    else:
        key = ('?', nid(), ZERO)
    s.emit('crc', ins, st, ptr=buf, n=n, key=key)
    return st, lin(atom('crc', nm, key[0], key[1], key[2], n, s.asint(init), lo=0, hi=(1 << 24) - 1 if '24' in nm else 65535, fl=F_IN if key[0] == 'pr' else F_LOSSY))


@nat('strlen')
def n_strlen(s, fr, ins, st, a):
    p = st.simp(a[0])
    hi = 1 << 20
    if isinstance(p, Ptr) and p.obj.size is not None and not isinstance(p.obj.size, Lin):
        hi = max(p.obj.size - 1, 0)
        if p.obj.kind == 'global' and p.obj.const:
            t = p.obj.tag
            if t is not None and t.init and t.init[0] == 'str' and not p.off.t:
                b = t.init[1][p.off.c:]
                return st, const(b.index(0) if 0 in b else len(b))
    return st, s.asked(st, 'strlen', a[:1], 0, hi)


@nat('llvm.va_start')
def n_vastart(s, fr, ins, st, a):
    p = st.simp(a[0])
    if isinstance(p, Ptr):
        s.valists[p.obj] = fr.va
    return st, None


@nat('snprintf', 'vsnprintf')
def n_snprintf(s, fr, ins, st, a):
    p = st.simp(a[0])
    n = urep(s.asint(a[1]), 64, st)
    args = a
    if ins.x['callee'][1] == 'vsnprintf':
        # the arguments behind a va_list are those of the call that started it
        q = st.simp(a[3])
        va = s.valists.get(q.obj) if isinstance(q, Ptr) else None
        if va:
            args = [a[0], n, a[2]] + [srep(v, t.n, st) if isinstance(v, Lin) and not v.isf and t.k == 'int' and t.n in (8, 16, 32, 64) else v for t, v in va]
        elif va is not None:
            args = [a[0], n, a[2]]
    s.emit('printf', ins, st, dst=a[0], n=n, args=args)
    oc = s.occurrence(st, 'printf')
    for c, q in leaves(p):
        if isinstance(q, Ptr) and q.obj is not NULLOBJ:
            off = st.simp(q.off)
            s.check_access(st, q, off, n, ins, 'snprintf')
            s.havoc(st, q.obj, off, st.simp(add(off, n)), (oc, 'buf'), off)
    return st, lin(s.evatom(oc, 'ret', 0, (1 << 31) - 1))


@nat('strncpy')
def n_strncpy(s, fr, ins, st, a):
    p = st.simp(a[0])
    n = urep(s.asint(a[2]), 64, st)
    for c, q in leaves(p):
        if isinstance(q, Ptr) and q.obj is not NULLOBJ:
            off = st.simp(q.off)
            s.check_access(st, q, off, n, ins, 'strncpy')
            s.havoc(st, q.obj, off, st.simp(add(off, n)))
    return st, a[0]


@nat('memcmp', 'strcmp', 'strncmp')
def n_cmp(s, fr, ins, st, a):
    if ins.x['callee'][1] == 'memcmp' and all(isinstance(st.simp(x), Ptr) for x in a[:2]):
        n = urep(s.asint(a[2]), 64, st)
        for x in a[:2]:
            x = st.simp(x)
            s.check_access(st, x, st.simp(x.off), n, ins, 'read')
    return st, s.asked(st, ins.x['callee'][1], a, -255, 255)


@nat('read', 'fread', 'write', 'fwrite')
def n_io(s, fr, ins, st, a):
    nm = ins.x['callee'][1]
    buf = st.simp(a[1] if nm in ('read', 'write') else a[0])
    n = urep(s.asint(a[2]), 64, st)
    if isinstance(buf, Ptr):
        s.check_access(st, buf, st.simp(buf.off), n, ins, nm)
    oc = s.occurrence(st, nm)
    if isinstance(buf, Ptr):
        if nm in ('read', 'fread'):
            s.havoc(st, buf.obj, st.simp(buf.off), st.simp(add(buf.off, n)), (oc, 'buf'))
    s.emit('io', ins, st, name=nm, args=a)
    lo = -1 if nm in ('read', 'write') else 0
    x = lin(s.evatom(oc, 'ret', lo, 1 << 30))
    try:
        st.assume(rng(sub(x, n), None, 0), node=False)
    except Dead:
        pass
    return st, x


@nat('malloc', 'calloc')
def n_malloc(s, fr, ins, st, a):
    nm = ins.x['callee'][1]
    n = urep(s.asint(a[0]), 64, st)
    o = s.new_obj(st, 'heap@%s' % (s.where(ins)[1],), n.c if not n.t else n, 'heap', 'undef')
    return st, ptr(o)


@nat('qsort')
def n_qsort(s, fr, ins, st, a):
    p = st.simp(a[0])
    if isinstance(p, Ptr):
        s.check_access(st, p, st.simp(p.off), mul_(urep(s.asint(a[1]), 64, st), urep(s.asint(a[2]), 64, st), 64, st), ins, 'qsort')
        s.havoc(st, p.obj, st.simp(p.off), st.simp(add(p.off, mul_(urep(s.asint(a[1]), 64, st), urep(s.asint(a[2]), 64, st), 64, st))), (s.occurrence(st, 'qsort'), 0), st.simp(p.off))
    return st, None


@nat('sbp_message_send', 'sbp_send_message')
def n_send(s, fr, ins, st, a):
    return st, lin(s.evatom(s.occurrence(st, 'send'), 'ret', -128, 127))


@nat('sbp_process', 'sbp_message_decode')
def n_sbpproc(s, fr, ins, st, a):
    return st, lin(s.evatom(s.occurrence(st, 'sbp'), 'ret', -128, 127))


@nat('time')
def n_time(s, fr, ins, st, a):
    return st, s.evval(s.occurrence(st, 'time'), 'ret', ins.ty)


# librtcm's own bit helpers: contract of bits.c (discharged separately, see checks)
for _n, _b in (('rtcm_getbitu', 'u'), ('rtcm_getbitul', 'u'), ('rtcm_getbits', 's'), ('rtcm_getbitsl', 's')):
    def _mkget(sg, cap):
        def f(s, fr, ins, st, a):
            pos = urep(s.asint(a[1]), 32, st)
            ln = mk_mod(s.asint(a[2]), 256, st)
            s.emit('bitget', ins, st, ptr=a[0], pos=pos, len=ln, signed=sg)
            chk_bits(s, st, a[0], pos, ln, ins, 'bitread')
            return st, bitval(s, st, a[0], pos, ln, sg)
        return f
    N[_n] = _mkget(_b == 's', 32)
for _n in ('rtcm_setbitu', 'rtcm_setbits', 'rtcm_setbitul', 'rtcm_setbitsl'):
    N[_n] = n_setbit
CONTRACT = {'rtcm_getbitu', 'rtcm_getbitul', 'rtcm_getbits', 'rtcm_getbitsl', 'rtcm_setbitu', 'rtcm_setbits', 'rtcm_setbitul', 'rtcm_setbitsl'}
