"""Which bytes behind its pointer parameters may a function modify (interprocedural, flow-insensitive).

mods(prog, fn, i) -> None (anything) or a sorted list of (lo, hi) byte ranges, hi None = unbounded."""
import ir

INFB = 1 << 62
READONLY = {'strstr', 'strlen', 'memcmp', 'strcmp', 'strncmp', 'printf', 'fprintf', 'puts', 'fwrite', 'write', 'crc24q', 'crc24q_bits', 'crc16_ccitt',
            'fifo_length', 'fifo_space', 'gpsdifftime', 'gps_time_valid', 'get_gps_utc_offset', 'get_utc_gps_offset', 'sbp_message_send', 'time', '__assert_fail', 'abort', 'exit', 'isnan', 'isfinite',
            'rtcm_getbitu', 'rtcm_getbitul', 'rtcm_getbits', 'rtcm_getbitsl', 'detailed_log_', 'log_', 'free'}
FIXED = {'read': {1: INFB}, 'fread': {0: INFB}, 'strncpy': {0: INFB}, 'strcpy': {0: INFB}, 'decode_glo_ephemeris': {3: INFB}, 'gps_time_normalize_inplace': {0: 16}, 'clock_gettime': {1: 16},
         'fifo_write': {0: 24}, 'fifo_read': {0: 24, 1: INFB}, 'fifo_remove': {0: 24}, 'fifo_init': {0: 24}, 'fifo_peek': {1: INFB}}
_memo = {}


def merge(rs):
    out = []
    for lo, hi in sorted(rs):
        if out and lo <= out[-1][1]:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


def gep_step(v, bt, idx):
    """(off, lo, hi) moved by a gep"""
    off, lo, hi = v
    t = bt
    first = True
    for ty, ix in idx:
        c = ix[1] if isinstance(ix, tuple) and ix[0] == 'int' else None
        if c is not None and c >= 1 << 62:
            c -= 1 << 64
        if first:
            first = False
            if c is None:
                off = None
            elif off is not None:
                off += c * t.size()
            continue
        if t.k == 'struct':
            fo = t.layout()[0][c]
            t = t.fields[c]
            if off is not None:
                off += fo
                lo, hi = off, min(hi, off + t.size())
        else:
            et = t.e
            if off is not None and t.n:
                lo, hi = off, min(hi, off + t.size())
            t = et
            if c is None:
                off = None
            elif off is not None:
                off += c * et.size()
    return off, lo, hi


_taken = {}


def taken(prog):
    """program functions whose address is used other than for a direct call"""
    if id(prog) not in _taken:
        names = set()

        def g(v):
            if isinstance(v, tuple):
                if len(v) > 1 and v[0] == 'glob':
                    names.add(v[1])
                else:
                    for x in v:
                        g(x)
            elif isinstance(v, list):
                for x in v:
                    g(x)
        for m in prog.mods:
            for gl in m.globals.values():
                if gl.init is not None:
                    g(gl.init)
            for f in m.funcs.values():
                for b in f.blocks.values():
                    for i in list(b.phis) + list(b.ins):
                        g(i.a)
        _taken[id(prog)] = [f for f in prog.all_funcs() if f.name in names and f.blocks]
    return _taken[id(prog)]


def analyse(prog, fn, seen):
    key = (fn.mod.path, fn.name)
    if key in _memo:
        return _memo[key]
    if key in seen:
        return seen[key]
    np = len(fn.params)
    res = [[] for _ in range(np)]
    seen[key] = [[] for _ in range(np)]
    der = {}
    for i, (ty, nm) in enumerate(fn.params):
        if ty.k == 'ptr':
            der[nm] = {i: {(0, 0, INFB)}}

    def get(v):
        if isinstance(v, tuple) and v and v[0] == 'reg':
            return der.get(v[1], {})
        return {}
    ins = [i for b in fn.blocks.values() for i in list(b.phis) + list(b.ins)]

    def put(r, d):
        ch = False
        t = der.setdefault(r, {})
        for i, vs in d.items():
            s = t.setdefault(i, set())
            for v in vs:
                if len(s) > 200:
                    v = (None, 0, INFB)
                if v not in s:
                    s.add(v)
                    ch = True
        return ch

    def regs(x, out):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'reg':
                out.append(x)
            else:
                for y in x:
                    regs(y, out)
        elif isinstance(x, list):
            for y in x:
                regs(y, out)
    for _ in range(12):
        ch = False
        for i in ins:
            if i.op == 'gep' and i.res:
                b = get(i.a[0])
                if b:
                    d = {}
                    for p, vs in b.items():
                        d[p] = {gep_step(v, i.x['bt'], i.a[1]) for v in vs}
                    ch |= put(i.res, d)
            elif i.op in ('phi', 'select', 'bitcast', 'freeze') and i.res:
                out = []
                regs(i.a, out)
                for r in out:
                    if get(r):
                        ch |= put(i.res, get(r))
        if not ch:
            break

    def wr(d, size):
        for p, vs in d.items():
            for off, lo, hi in vs:
                if res[p] is None:
                    continue
                if off is None:
                    res[p].append((lo, hi))
                else:
                    res[p].append((off, min(off + size, INFB)))

    def al(d):
        for p in d:
            res[p] = None

    def through(f, args):
        r = analyse(prog, f, seen)
        for j, a in enumerate(args):
            d = get(a)
            if not d:
                continue
            m = r[j] if j < len(r) else None
            if m is None:
                al(d)
                continue
            for p, vs in d.items():
                for off, lo, hi in vs:
                    for l2, h2 in m:
                        if res[p] is None:
                            break
                        if off is None:
                            res[p].append((lo, hi))
                        else:
                            res[p].append((off + l2, min(off + h2, INFB)))
    for i in ins:
        if i.op in ('gep', 'phi', 'select', 'bitcast', 'load', 'icmp', 'br', 'switch', 'freeze'):
            continue
        if i.op == 'store':
            wr(get(i.a[1]), i.ty.size() if i.ty is not None and i.ty.k != 'void' else store_size(fn, i))
            continue        # (a pointer kept elsewhere is a context pointer: not a modification)
        if i.op in ('call', 'invoke'):
            cal = i.x.get('callee')
            nm = cal[1] if cal and cal[0] == 'glob' else None
            args = [a[1] for a in i.a]
            if nm is None:
                if any(get(a) for a in args):
                    c = [f for f in taken(prog) if [t.k for t, _ in f.params] == [x[0].k for x in i.a]]
                    if not c:
                        for a in args:
                            al(get(a))
                    for f in c:
                        through(f, args)
                continue
            if nm.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')) or nm in ('memset', 'memcpy', 'memmove'):
                n = args[2]
                wr(get(args[0]), n[1] if n[0] == 'int' else INFB)
                continue
            if nm.startswith('llvm.') or nm in READONLY:
                continue
            if nm in FIXED:
                for j, a in enumerate(args):
                    if get(a):
                        if FIXED[nm].get(j, 0):
                            wr(get(a), FIXED[nm][j])
                continue
            if nm.startswith(('rtcm_setbit',)):
                for a in args:
                    wr(get(a), INFB)
                continue
            f = prog.func(fn.mod, nm)
            if f is None or not f.blocks:
                for j, a in enumerate(args):
                    al(get(a))
                continue
            through(f, args)
            continue
        if i.op == 'ret':
            continue
        out = []
        regs(i.a, out)
        for r in out:
            if get(r) and i.op not in ('ptrtoint', 'cmpxchg', 'atomicrmw'):
                al(get(r))
            elif get(r):
                wr(get(r), 16)
    return [merge(x) if x is not None else None for x in res]


def store_size(fn, i):
    return 8


def stable(prog, fn):
    """fixpoint over recursion: repeat until the assumed results are the computed ones"""
    key = (fn.mod.path, fn.name)
    if key in _memo:
        return _memo[key]
    r = analyse(prog, fn, {})
    _memo[key] = r
    return r


def mods(prog, fn, i):
    r = stable(prog, fn)
    m = r[i] if i < len(r) else None
    if m is None or len(m) > 60:
        return None
    return [(lo, None if hi >= INFB else hi) for lo, hi in m]
