"""Interprocedural abstract interpreter: gated-value domain, states merged at every
join, loops summarised (or unrolled when the trip count is a small constant)."""
import re, sys, time
from terms import *
import terms as tm
import mem as mm
from mem import *
from ops import *
import ir

sys.setrecursionlimit(100000)

UNROLL = 70


class Budget(Exception):
    pass


class Event:
    __slots__ = ('kind', 'ins', 'st', 'd', 'stack')

    def __init__(s, kind, ins, st, d, stack):
        s.kind, s.ins, s.st, s.d, s.stack = kind, ins, st, d, stack


class Frame:
    __slots__ = ('fn', 'regs', 'objs', 'depth', 'site', 'va')

    def __init__(s, fn, depth, site):
        s.fn, s.regs, s.objs, s.depth, s.site = fn, {}, [], depth, site
        s.va = ()


class Loop:
    pass


def const_globals(prog):
    """variables without a store or leak in the program; 'init' for those stored only by a
    dynamic initialiser of their own translation unit"""
    bad = set()
    inits = {}

    def key(mod, name):
        g = prog.glob(mod, name)
        return (g.mod.path, g.name) if g is not None and g.init is not None else None

    def roots(v, mod, der, out):
        if isinstance(v, tuple):
            if v and v[0] == 'glob':
                k = key(mod, v[1])
                if k:
                    out.add(k)
                return
            if v and v[0] == 'reg':
                out.update(der.get(v[1], ()))
                return
            for x in v:
                roots(x, mod, der, out)
        elif isinstance(v, list):
            for x in v:
                roots(x, mod, der, out)
    for m in prog.mods:
        for g in m.globals.values():
            if g.init is not None and g.name != 'llvm.global_ctors':
                o = set()
                roots(g.init, m, {}, o)
                bad |= o        # address kept in another variable
        for f in m.funcs.values():
            der = {}
            ins = [i for b in f.blocks.values() for i in list(b.phis) + list(b.ins)]
            for _ in range(4):
                ch = False
                for i in ins:
                    if i.op in ('getelementptr', 'gep', 'phi', 'select', 'bitcast') and i.res:
                        o = set()
                        roots(i.a, m, der, o)
                        if o - der.get(i.res, set()):
                            der[i.res] = der.get(i.res, set()) | o
                            ch = True
                if not ch:
                    break
            for i in ins:
                if i.op in ('load', 'icmp', 'getelementptr', 'gep', 'phi', 'select', 'bitcast', 'br', 'switch'):
                    continue
                o = set()
                if i.op == 'call':
                    cal = i.x.get('callee') if isinstance(i.x, dict) else None
                    nm = cal[1] if cal and cal[0] == 'glob' else ''
                    aa = i.a
                    if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
                        d = set()
                        roots(aa[0], m, der, d)
                        bad |= d
                        continue
                    roots(aa, m, der, o)
                    if nm.startswith('llvm.lifetime') or nm in ('fprintf', 'printf', 'memcmp', 'strcmp', 'strlen'):
                        continue
                    bad |= o
                    continue
                roots(i.a, m, der, o)
                if f.name.startswith('__cxx_global_var_init') and i.op == 'store' and i.a[1][0] == 'glob':
                    for k in o:
                        if k[0] == m.path:
                            inits.setdefault(k, set()).add(f.name)
                        else:
                            bad.add(k)
                    continue
                bad |= o
    res = {'inits': inits}
    for m in prog.mods:
        for g in m.globals.values():
            k = (m.path, g.name)
            if g.init is None or k in bad or g.name.startswith('llvm.'):
                continue
            if k in inits and not g.internal:
                continue
            res[k] = 'init' if k in inits else True
    return res


class Interp:
    def __init__(s, prog, natives=None, budget=3000000):
        s.p = prog
        s.natives = natives or {}
        s.globs = {}
        s.quiet = 0
        s.listeners = []
        s.steps = 0
        s.budget = budget
        s.stack = []
        s.oblig = {}          # (file,line,kind) -> [status,...]
        s.unknown_calls = {}
        s.evobjs = {}
        s.valists = {}
        s.answers = {}
        s.reach = {}
        s.vocab = None      # external functions the references know (None: all)
        s.fnmodels = {}
        s.visited = set()
        s.maxdepth = 40
        s.deadline = None
        s.trace = False
        s.loopstats = {}
        s.loopstack = []
        s.regs = 0

    # ------------------------------------------------------------ events
    def emit(s, kind, ins, st, **d):
        if s.quiet:
            return
        e = Event(kind, ins, st, d, tuple(f.site for f in s.stack))
        for l in s.listeners:
            l(e)

    def where(s, ins):
        f, l = ins.fn.mod.loc(ins.dbg)
        return f, l

    # ------------------------------------------------------------ objects
    def new_obj(s, st, name, size, kind, base, di=None, isbytes=False):
        o = Obj(name, size, kind, di, isbytes=isbytes)
        st.mem[o] = Node('D', {}, Node('B', (base, o), None), st.tok)
        return o

    def mod_of(s, o):
        return o.di[0] if o.di else None

    def chain(s, st, o):
        n = st.mem.get(o)
        if n is None:
            n = Node('D', {}, Node('B', (o.kind if o.kind in ('zero',) else 'in', o), None), st.tok)
            st.mem[o] = n
        return n

    def wchain(s, st, o):
        """chain whose top dict may be mutated"""
        n = s.chain(st, o)
        if n.k != 'D':
            n = Node('D', {}, n, st.tok)
            st.mem[o] = n
        elif n.own != st.tok:
            n = Node('D', dict(n.a), n.parent, st.tok)
            st.mem[o] = n
        return n

    def globptr(s, st, mod, name):
        f = s.p.func(mod, name)
        if f is not None:
            return fnptr(name, f)
        g = s.p.glob(mod, name)
        if g is None or g.init is None:
            if name in mod.decls:
                return fnptr(name, None)
            key = ('ext', name)
            if key not in s.globs:
                ty = g.ty if g is not None else None
                o = Obj('@' + name, ty.size() if ty is not None and ty.k != 'opaque' else None, 'in')
                s.globs[key] = o
            return ptr(s.globs[key])
        if g not in s.globs:
            o = Obj('@' + name, g.ty.size() if g.ty.k != 'opaque' else None, 'global')
            ec = s.effconst(g)
            o.const = g.const or ec is not None
            o.tag = g
            if g.dbg is not None:
                try:
                    n = g.mod.md(g.dbg)
                    v = g.mod.mdref(n[1].get('var')) if n else None
                    if v:
                        o.di = (g.mod, s.p.ditype(g.mod, v[1].get('type')))
                except Exception:
                    pass
            s.globs[g] = o
        o = s.globs[g]
        if o not in st.mem:
            if o.const or s.concrete_globals:
                d = {}
                ok = s.init_cells(st, g.mod, d, 0, g.ty, g.init)
                if s.effconst(g) not in (None, True):
                    d = dict(s.effconst(g))
                st.mem[o] = Node('D', d, Node('B', ('zero' if ok else 'in', o), None), None)
            else:
                st.mem[o] = Node('D', {}, Node('B', ('in', o), None), None)
        return ptr(o)

    concrete_globals = False

    def effconst(s, g):
        """True: a variable no instruction stores to or leaks; cells: one that only its dynamic
        initialiser stores to, with the value it stores; None otherwise"""
        if g.const or g.init is None:
            return True if g.const else None
        cache = s.p.__dict__.setdefault('effconst', None)
        if cache is None:
            cache = s.p.effconst = const_globals(s.p)
        k = cache.get((g.mod.path, g.name))
        if k != 'init':
            return k
        cache[(g.mod.path, g.name)] = None
        it = Interp(s.p, s.natives)
        it.concrete_globals = True
        it.quiet = 1
        cells = None
        try:
            st = St()
            for f in g.mod.funcs.values():
                if f.name.startswith('__cxx_global_var_init') and f.name in cache['inits'][(g.mod.path, g.name)]:
                    st, _ = it.call(f, [], st)
            n = st.mem[it.globptr(st, g.mod, g.name).obj]
            if n.k == 'D' and all(isinstance(e[1], Lin) and not e[1].t for e in n.a.values()):
                cells = n.a
        except Exception:
            cells = None
        cache[(g.mod.path, g.name)] = cells
        return cells

    def init_cells(s, st, mod, d, off, ty, v):
        k = v[0]
        if k in ('zero', 'undef', 'null') and not (k == 'null'):
            return True
        if k == 'null':
            return True
        if k == 'int':
            if v[1]:
                d[off] = (ty.size(), const(v[1] % (1 << (8 * ty.size()))) if v[1] < 0 else const(v[1]))
            return True
        if k == 'fp':
            if v[1]:
                d[off] = (ty.size(), fconst(v[1]))
            return True
        if k == 'str':
            for i, b in enumerate(v[1]):
                if b:
                    d[off + i] = (1, const(b))
            return True
        if k == 'agg':
            ok = True
            if ty.k == 'arr' or ty.k == 'vec':
                es = ty.e.size()
                for i, (et, ev) in enumerate(v[1]):
                    ok = s.init_cells(st, mod, d, off + i * es, et, ev) and ok
            else:
                t2 = ty
                if not ty.fields and v[1]:
                    t2 = ir.Ty('struct', fields=[e[0] for e in v[1]])
                offs, _ = t2.layout()
                for i, (et, ev) in enumerate(v[1]):
                    ok = s.init_cells(st, mod, d, off + offs[i], et, ev) and ok
            return ok
        if k in ('glob', 'cgep'):
            d[off] = (8, s.cval(st, mod, v, ty))
            return True
        return False

    # ------------------------------------------------------------ values
    def cval(s, st, mod, v, ty):
        k = v[0]
        if k == 'int':
            return const(v[1]) if v[2] != 1 else (CT if v[1] else CF)
        if k == 'fp':
            return fconst(v[1])
        if k == 'null':
            return NULL
        if k == 'glob':
            return s.globptr(st, mod, v[1])
        if k == 'undef':
            if ty is not None and ty.k == 'ptr':
                return ptr(Obj('undefptr', None, 'in'))
            if ty is not None and ty.k == 'struct':
                return Agg([s.cval(st, mod, v, f) for f in ty.fields])
            if ty is not None and ty.k == 'int' and ty.n == 1:
                return batom('undefb', nid())
            isf = ty is not None and ty.k in ('float', 'double')
            return lin(atom('undef', 'reg', nid(), isf=isf, fl=F_UNDEF))
        if k == 'zero':
            if ty.k in ('float', 'double'):
                return fconst(0)
            if ty.k == 'ptr':
                return NULL
            if ty.k == 'struct':
                return Agg([s.cval(st, mod, ('zero',), f) for f in ty.fields])
            return ZERO
        if k == 'cgep':
            b = s.cval(st, mod, v[2], ir.PTR)
            return s.gep(st, b, v[1], [(t, s.cval(st, mod, x, t)) for t, x in v[3]])
        if k == 'ccast':
            return s.cval(st, mod, v[3], v[2])
        return s.fresh('cst', ty)

    def fresh(s, name, ty, lo=None, hi=None, fl=F_LOSSY):
        if ty is None or ty.k == 'int':
            w = ty.n if ty is not None else 64
            if w == 1:
                return batom('fr_' + name, nid())
            return lin(atom('fr', name, nid(), lo=0 if lo is None else lo, hi=(1 << w) - 1 if hi is None else hi, fl=fl))
        if ty.k in ('float', 'double', 'x86_fp80'):
            return lin(atom('fr', name, nid(), isf=True, fl=fl))
        if ty.k == 'ptr':
            return ptr(Obj('?' + name, None, 'in'))
        if ty.k == 'struct':
            return Agg([s.fresh(name, f) for f in ty.fields])
        return lin(atom('fr', name, nid(), fl=fl))

    def val(s, fr, st, v, ty=None):
        if v[0] == 'reg':
            r = fr.regs.get(v[1])
            if r is None:
                r = s.fresh('unk_' + v[1], ty)
            return r
        return s.cval(st, fr.fn.mod, v, ty)

    def asint(s, v, st=None, w=64):
        if isinstance(v, Lin):
            return v
        if isinstance(v, C):
            return b2i(v)
        if isinstance(v, Ptr):
            if v.obj is NULLOBJ:
                return v.off
            return add(lin(atom('addr', v.obj.id, lo=1 << 12, hi=1 << 46)), v.off)
        if isinstance(v, PIte):
            return ite(v.c, s.asint(v.a), s.asint(v.b))
        if isinstance(v, FnPtr):
            return lin(atom('faddr', v.name, lo=1 << 12, hi=1 << 46))
        return s.fresh('int', ir.ity(w))

    def ascond(s, v):
        if isinstance(v, C):
            return v
        if isinstance(v, Lin):
            return cnot(rng(v, 0, 0))
        return batom('fr_c', nid())

    def gep(s, st, b, bt, idx):
        off = ZERO
        ty = None
        subr = ext = None
        for n, (it, iv) in enumerate(idx):
            iv = s.asint(iv)
            w = it.n if it.k == 'int' else 64
            if n == 0:
                ty = bt
                sz = bt.size()
            elif ty.k in ('arr', 'vec'):
                sz = ty.e.size()
                if ty.n > 0:
                    if subr is not None and ext is None and not subr[0].t:
                        ext = (subr[0].c, subr[0].c + subr[1])
                    subr = (off, ty.n * sz)
                ty = ty.e
            else:
                i = st.simp(iv).c
                off = addc(off, ty.layout()[0][i])
                ty = ty.fields[i]
                continue
            if not iv.t:
                c = iv.c
                if c >= 1 << (w - 1):
                    c -= 1 << w
                off = addc(off, c * sz)
            else:
                off = add(off, scale(srep(iv, w, st), sz))
        if subr is not None:
            return s.setsub(b, off, subr, ext)
        return s.padd(b, off)

    def setsub(s, b, off, subr, ext=None):
        if isinstance(b, Ptr):
            # ext: numeric extent of the outermost array of the chain, kept for writes whose
            # inner array starts at a symbolic offset
            e = None
            if b.sub is not None:
                e = b.sub[2]
                if e is None and not b.sub[0].t and not isinstance(b.sub[1], Lin):
                    e = (b.sub[0].c, b.sub[0].c + b.sub[1])
            if e is None and ext is not None and not b.off.t:
                e = (ext[0] + b.off.c, ext[1] + b.off.c)
            return ptr(b.obj, add(b.off, off), (add(b.off, subr[0]), subr[1], e))
        if isinstance(b, PIte):
            return pite(b.c, s.setsub(b.a, off, subr, ext), s.setsub(b.b, off, subr, ext))
        return s.padd(b, off)

    def padd(s, b, off):
        if off is ZERO:
            return b
        if isinstance(b, Ptr):
            return ptr(b.obj, add(b.off, off), b.sub)
        if isinstance(b, PIte):
            return pite(b.c, s.padd(b.a, off), s.padd(b.b, off))
        if isinstance(b, Lin):
            return s.toptr(None, add(b, off))
        return b

    def toptr(s, st, v):
        if isinstance(v, (Ptr, PIte, FnPtr)):
            return v
        if isinstance(v, Lin):
            for a, k in v.t:
                if a.op == 'addr' and k == 1:
                    o = Obj.__new__(Obj)
                    for ob in (st.mem if st is not None else ()):
                        if ob.id == a.a[0]:
                            return ptr(ob, add(v, lin(a), -1))
            t = lone(v)
            if t is not None and t.op == 'ite':
                return pite(t.a[0], s.toptr(st, t.a[1]), s.toptr(st, t.a[2]))
            if not v.t and v.c == 0:
                return NULL
            return ptr(s.deref_obj(('int', v.id), None), ZERO)
        return ptr(Obj('?ptr', None, 'in'))

    _deref = {}

    def deref_obj(s, key, di, name=None):
        o = s._deref.get(key)
        if o is None:
            size = None
            isb = False
            if di is not None and di[1] is not None:
                d = di[1][1]
                if d.get('size') and di[1][0] in ('DICompositeType',):
                    size = int(d['size']) // 8
                if di[1][0] == 'DIBasicType' and d.get('size') == '8':
                    isb = True
            o = Obj(name or ('*%s' % (key,)), None if isb else size, 'in', di, isbytes=isb)
            o.key = key
            s._deref[key] = o
        return o

    # ------------------------------------------------------------ loads
    def load(s, st, p, size, ty, ins=None):
        p = st.simp(p)
        if isinstance(p, PIte):
            x = s.load(st, p.a, size, ty, ins)
            y = s.load(st, p.b, size, ty, ins)
            return s.merge_val(p.c, x, y)
        if isinstance(p, FnPtr) or isinstance(p, Lin) or not isinstance(p, Ptr):
            return s.fresh('badload', ty)
        off = st.simp(p.off)
        o = p.obj
        if ins is not None:
            s.check_access(st, p, off, const(size), ins, 'load')
        n = s.chain(st, o)
        if off.t and not o.const and p.sub is not None:
            # a load that leaves its array is reported by check_access; go on as if it stayed inside
            lo, hi = st.iv(off)
            l, h = s.sub_range(st, p.sub, o)
            if (lo < l or hi > h - size) and l <= h - size and l != -INF and h != INF:
                t = st.copy()
                try:
                    t.assume(rng(off, l, h - size), node=False)
                    st = t
                except Dead:
                    pass
        return s.ld(st, n, o, off, size, ty, {})

    def sub_range(s, st, sub_, o):
        """the bytes of the array (member) an access belongs to"""
        l, h = -INF, INF
        l2, h2 = st.iv(sub_[0])
        ln = sub_[1] if not isinstance(sub_[1], Lin) else st.iv(sub_[1])[1]
        l, h = max(l, l2), min(h, h2 + ln)
        if sub_[2] is not None:
            l, h = max(l, sub_[2][0]), min(h, sub_[2][1])
        return l, h

    def conv(s, v, ty, size):
        """stored value -> value of type ty"""
        k = ty.k if ty is not None else 'int'
        if k == 'int':
            if isinstance(v, Lin) and v.isf:
                return s.f2b(v, size)
            if isinstance(v, Lin):
                return v
            if isinstance(v, C):
                return b2i(v) if ty is None or ty.n != 1 else v
            return s.asint(v)
        if k in ('float', 'double'):
            if isinstance(v, Lin):
                return v if v.isf else s.b2f(v, size)
            return s.fresh('conv', ty)
        if k == 'ptr':
            if isinstance(v, (Ptr, PIte, FnPtr)):
                return v
            if isinstance(v, Lin):
                return s.toptr(None, v) if v.t or v.c else NULL
        return v

    def b2f(s, v, size):
        if not v.t:
            import struct
            u = v.c % (1 << (8 * size))
            x = struct.unpack('<d' if size == 8 else '<f', u.to_bytes(size, 'little'))[0]
            return fconst(x)
        t = lone(v)
        if t is not None and t.op == 'f2b' and t.a[1] == size:
            return t.a[0]
        if t is not None and t.op == 'ite':
            return ite(t.a[0], s.b2f(t.a[1], size), s.b2f(t.a[2], size))
        return lin(atom('b2f', v, size, isf=True))

    def f2b(s, v, size):
        if not v.t:
            import struct
            try:
                return const(int.from_bytes(struct.pack('<d' if size == 8 else '<f', v.c), 'little'))
            except OverflowError:
                pass
        t = lone(v)
        if t is not None and t.op == 'b2f' and t.a[1] == size:
            return t.a[0]
        return lin(atom('f2b', v, size, lo=0, hi=(1 << (8 * size)) - 1))

    def byte_of(s, st, v, j, size):
        if isinstance(v, C):
            v = b2i(v)
        if isinstance(v, Lin) and v.isf:
            v = s.f2b(v, size)
        if not isinstance(v, Lin):
            v = s.asint(v)
        u = mk_mod(v, 1 << (8 * size), st)
        return ext(u, 8 * j, 8, st)

    def base_load(s, st, kind, o, off, size, ty):
        k = ty.k if ty is not None else 'int'
        if kind == 'zero':
            return NULL if k == 'ptr' else fconst(0) if k in ('float', 'double') else ZERO
        if kind == 'undef':
            if k == 'ptr':
                return ptr(Obj('undef', None, 'in'))
            hi = (1 << (8 * size)) - 1
            return lin(atom('undef', o.name, off, size, o.id, lo=-INF if k != 'int' else 0, hi=INF if k != 'int' else hi, isf=k in ('float', 'double'), fl=F_UNDEF))
        # symbolic input
        if k == 'ptr':
            di = None
            name = '%s.%s' % (o.name, show(off))
            if o.di is not None and not off.t:
                f = s.field_at(o, off.c)
                if f is not None:
                    n = f[5]
                    name = '%s->%s' % (o.name, f[0])
                    if n is not None and n[0] == 'DIDerivedType' and n[1].get('tag') == 'DW_TAG_pointer_type':
                        tn = s.p.ditype(o.di[0], n[1].get('baseType'))
                        if tn is not None and tn[0] == 'DISubroutineType':
                            return fnptr('*' + name)
                        di = (o.di[0], tn)
            q = s.deref_obj((o.id, off.id), di, name)
            q.par = (o, off)
            return ptr(q)
        if k == 'int' or k == 'arr':
            if o.bytes:
                r = ZERO
                for i in range(size):
                    r = add(r, scale(lin(atom('in', o.name, addc(off, i), 1, o.id, lo=0, hi=255, fl=F_IN)), 1 << (8 * i)))
                return r
            lo, hi = 0, (1 << (8 * size)) - 1
            nm = None
            if o.di is not None and not off.t:
                f = s.field_at(o, off.c)
                if f is not None:
                    nm = f[0]
                    if f[3] in ('DW_ATE_signed', 'DW_ATE_signed_char') and f[2] == size:
                        lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
                    elif f[3] == 'DW_ATE_boolean' and f[2] == size:
                        hi = 1
            elif o.di is not None and o.di[1] is not None:
                f = s.elem_at(o, off, size)
                if f in ('DW_ATE_signed', 'DW_ATE_signed_char'):
                    lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
                elif f == 'DW_ATE_boolean':
                    hi = 1
            return lin(atom('in', o.name + ('.' + nm if nm else ''), off, size, o.id, lo=lo, hi=hi, fl=F_IN))
        if k in ('float', 'double'):
            if o.bytes:
                return s.b2f(s.base_load(st, kind, o, off, size, None), size)
            nm = None
            if o.di is not None and not off.t:
                f = s.field_at(o, off.c)
                nm = f[0] if f else None
            return lin(atom('in', o.name + ('.' + nm if nm else ''), off, size, o.id, isf=True, fl=F_IN))
        return s.fresh('in', ty)

    def field_at(s, o, off):
        lay = s.layout(o)
        return lay.get(off)

    def layout(s, o):
        if o.lay is None:
            o.lay = {}
            if o.di is not None and o.di[1] is not None:
                o.lay = s.di_layout(o.di[0], o.di[1])
        return o.lay

    _ul = {}

    def union_leaves(s, o):
        """[(offset, field)] of all leaves where members of a union overlap, else []"""
        if o.di is None or o.di[1] is None:
            return ()
        key = (o.di[0].path, id(o.di[1]))
        r = s._ul.get(key)
        if r is None:
            fs = [f + (None,) if len(f) == 5 else f for f in s.p.fields(*o.di) if f[2] in (1, 2, 4, 8) and f[3] != 'bigarray']
            seen = {}
            for f in fs:
                seen.setdefault((f[1], f[2]), f)
            r = s._ul[key] = [(f[1], f) for f in fs] if len(seen) != len(set(f[1] for f in fs)) or len(fs) != len(seen) else ()
        return r

    _dil = {}

    def di_layout(s, mod, node):
        key = (mod.path, id(node))
        r = s._dil.get(key)
        if r is None:
            r = {}
            for f in s.p.fields(mod, node):
                if f[1] not in r:
                    r[f[1]] = f + (None,) if len(f) == 5 else f
            # attach pointer nodes
            s._ptr_nodes(mod, node, 0, r)
            s._dil[key] = r
        return r

    def _ptr_nodes(s, mod, node, base, r):
        if node is None or node[0] != 'DICompositeType' or node[1].get('tag') not in ('DW_TAG_structure_type', 'DW_TAG_union_type', 'DW_TAG_class_type'):
            if node is not None and node[0] == 'DIDerivedType' and base in r:
                f = r[base]
                r[base] = f[:5] + (node,)
            return
        els = mod.mdref(node[1].get('elements'))
        for e in (els[1] if els else ()):
            m = mod.mdref(e)
            if not m or m[1].get('tag') != 'DW_TAG_member':
                continue
            off = base + int(m[1].get('offset', 0)) // 8
            t = s.p.ditype(mod, m[1].get('baseType'))
            if t is None:
                continue
            if t[0] == 'DIDerivedType' and t[1].get('tag') == 'DW_TAG_pointer_type':
                if off in r:
                    r[off] = r[off][:5] + (t,)
            elif t[0] == 'DICompositeType' and t[1].get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                s._ptr_nodes(mod, t, off, r)

    def elem_at(s, o, off, size):
        """encoding of a field reached through a symbolic index (best effort: same offset modulo strides)"""
        lay = s.layout(o)
        if not lay:
            return None
        import math
        g = 0
        for _, k in off.t:
            g = math.gcd(g, k)
        if g == 0:
            return None
        lo = off.c
        f = lay.get(lo if lo >= 0 else lo % g)
        return f[3] if f is not None and f[2] == size else None

    def ld(s, st, node, o, off, size, ty, memo):
        while True:
            k = node.k
            if k == 'D':
                d = node.a
                if not d:
                    node = node.parent
                    continue
                if s.qact:
                    d = {x: (e[0], s.qsub(o, e[1], const(x), e[0])) + tuple(e[2:]) for x, e in d.items()}
                if not off.t:
                    c = off.c
                    e = d.get(c)
                    if e is not None and e[0] == size:
                        return s.conv(st.simp(e[1]), ty, size)
                    hit = False
                    for x in range(c - 15, c + size):
                        e = d.get(x)
                        if e is not None and x + e[0] > c:
                            hit = True
                            break
                    if not hit:
                        node = node.parent
                        continue
                    if size == 1:
                        return s.conv(s.byte_of(st, e[1], c - x, e[0]), ty, 1)
                    return s.bytes_load(st, node, o, off, size, ty)
                if o.const:
                    return s.tbl_load(st, node, o, off, size, ty)
                lo, hi = st.iv(off)
                cand_ = []
                if lo == -INF or hi == INF or hi - lo > len(d) * 2:
                    for x, e in d.items():
                        if x + e[0] > lo and x < hi + size:
                            cand_.append((x, e))
                else:
                    for x in range(int(lo) - 15, int(hi) + size):
                        e = d.get(x)
                        if e is not None and x + e[0] > lo:
                            cand_.append((x, e))
                # stride filter
                import math
                g = 0
                for _, kk in off.t:
                    g = math.gcd(g, kk)
                if g > 1:
                    r = off.c % g
                    cand2 = []
                    for x, e in cand_:
                        dd = (x - r) % g
                        # overlap of [x,x+sz) with some [r+g*j, +size)
                        if dd < size or dd + e[0] > g:
                            cand2.append((x, e))
                    cand_ = cand2
                if not cand_:
                    node = node.parent
                    continue
                if len(cand_) <= 80 and all(e[0] == size for x, e in cand_) and (g % size == 0 or g == 0) and all((x - off.c) % g == 0 for x, e in cand_):
                    key = (node.parent.id, off.id, size)
                    r = memo.get(key)
                    if r is None:
                        r = s.ld(st, node.parent, o, off, size, ty, memo)
                        memo[key] = r
                    for x, e in cand_:
                        c = rng(addc(off, -x), 0, 0)
                        v = st.evalc(c)
                        if v is False:
                            continue
                        r = s.merge_val(c, s.conv(st.simp(e[1]), ty, size), r)
                    return r
                return s.opaque_load(st, o, off, size, ty, [e[1] for x, e in cand_])
            if k == 'B':
                if node.a[0] == 'const':
                    return s.base_load(st, 'zero', o, off, size, ty)
                return s.base_load(st, node.a[0], o, off, size, ty)
            if k == 'W':
                woff, wsize, wval = node.a[:3]
                if s.qact:
                    wval = s.qsub(o, wval, woff, wsize)
                d = sub(off, woff)
                d = st.simp(d)
                if not d.t and d.c == 0 and wsize == size:
                    return s.conv(st.simp(wval), ty, size)
                lo, hi = st.iv(d)
                if lo >= wsize or hi <= -size:
                    node = node.parent
                    continue
                if len(node.a) > 3 and node.a[3] is not None:
                    lo, hi = st.iv(off)
                    if hi + size <= node.a[3][0] or lo >= node.a[3][1]:
                        node = node.parent
                        continue
                if not d.t and 0 <= d.c and d.c + size <= wsize:
                    if size == 1:
                        return s.conv(s.byte_of(st, wval, d.c, wsize), ty, 1)
                    return s.bytes_load(st, node, o, off, size, ty)
                g = 0
                for _, kk in d.t:
                    import math
                    g = math.gcd(g, kk)
                rr = d.c % g if g else 0
                if wsize == size and g and g % size == 0 and rr % size == 0:
                    if rr:
                        node = node.parent
                        continue
                    key = (node.parent.id, off.id, size)
                    r = memo.get(key)
                    if r is None:
                        r = s.ld(st, node.parent, o, off, size, ty, memo)
                        memo[key] = r
                    c = rng(d, 0, 0)
                    v = st.evalc(c)
                    if v is False:
                        return r
                    return s.merge_val(c, s.conv(st.simp(wval), ty, size), r)
                if g and rr >= wsize and rr + size <= g:
                    node = node.parent
                    continue
                if size == 1 and g and g % wsize == 0 and rr < wsize:
                    return s.merge_val(rng(d, rr, rr), s.conv(s.byte_of(st, wval, rr, wsize), ty, 1), s.ld(st, node.parent, o, off, size, ty, memo))
                return s.opaque_load(st, o, off, size, ty, None)
            if k == 'Q':
                act = s.qact.get(node.a) if s.qact else None
                if act is not None:
                    if act[0] is off and act[1] == size:
                        return s.conv(act[2], ty, size)
                    return s.opaque_load(st, o, off, size, ty, None)
                node = node.parent
                continue
            if k == 'S':
                r = s.fold_load(st, node, o, off, size, ty, memo)
                if r == 'skip':
                    node = node.parent
                    continue
                return r
            if k == 'I':
                c, n1, n2 = node.a
                v = st.evalc(c)
                if v is True:
                    node = n1
                    continue
                if v is False:
                    node = n2
                    continue
                key = (node.id, off.id, size)
                r = memo.get(key)
                if r is None:
                    r = s.merge_val(c, s.ld(st, n1, o, off, size, ty, memo), s.ld(st, n2, o, off, size, ty, memo))
                    memo[key] = r
                return r
            if k == 'F':
                lo_, hi_, b = node.a
                q = s.inside(st, off, size, lo_, hi_)
                if q is None:
                    # aligned split
                    if not off.t and size > 1 and not lo_.t and not hi_.t:
                        return s.bytes_load(st, node, o, off, size, ty)
                    c = cand(rng(sub(off, lo_), 0, None), rng(sub(addc(off, size), hi_), None, 0))
                    key = (node.parent.id, off.id, size)
                    r = memo.get(key)
                    if r is None:
                        r = s.ld(st, node.parent, o, off, size, ty, memo)
                        memo[key] = r
                    return s.merge_val(c, s.fill_val(b, size, ty), r)
                if q:
                    return s.fill_val(b, size, ty)
                node = node.parent
                continue
            if k == 'Y':
                lo_, hi_, sn, so, soff = node.a
                q = s.inside(st, off, size, lo_, hi_)
                if q is False:
                    node = node.parent
                    continue
                if q is None and not off.t and size > 1 and not lo_.t and not hi_.t:
                    return s.bytes_load(st, node, o, off, size, ty)
                key = ('y', node.id, off.id, size)
                r = memo.get(key)
                if r is None:
                    r = s.ld(st, sn, so, st.simp(add(sub(off, lo_), soff)), size, ty, {})
                    memo[key] = r
                if q:
                    return r
                c = cand(rng(sub(off, lo_), 0, None), rng(sub(addc(off, size), hi_), None, 0))
                return s.merge_val(c, r, s.ld(st, node.parent, o, off, size, ty, memo))
            if k == 'A':
                kk, n, aoff, asize, aval, acond = node.a[:6]
                r = s.arr_load(st, node, o, off, size, ty, memo)
                if r == 'skip':
                    node = node.parent
                    continue
                return r
            if k == 'H':
                lo_, hi_, uid = node.a
                if lo_ is None and hi_ is None:
                    return s.havoc_val(uid, off, size, ty)
                q = s.inside(st, off, size, lo_ if lo_ is not None else const(-(1 << 62)), hi_ if hi_ is not None else const(1 << 62))
                if q is False:
                    node = node.parent
                    continue
                return s.havoc_val(uid, off, size, ty)
            raise AssertionError(k)

    def havoc_val(s, uid, off, size, ty):
        k = ty.k if ty is not None else 'int'
        if k == 'ptr':
            q = s.deref_obj(('hv', uid, off.id), None, '?hv')
            hn = mm.HVNAME.get(uid)
            if hn is not None and not hn[0][2] and not sub(off, hn[2]).t:
                q.label = '%s#%d.%s+%d' % (hn[0][0], hn[0][1], hn[1], sub(off, hn[2]).c)
            return ptr(q)
        isf = k in ('float', 'double')
        hn = mm.HVNAME.get(uid)
        if hn is not None:
            o, part, base = hn
            return lin(s.evatom(o, (part, size), 0, (1 << (8 * size)) - 1, isf, sub(off, base)))
        return lin(atom('hv', uid, off, size, lo=-INF if isf else 0, hi=INF if isf else (1 << (8 * size)) - 1, isf=isf, fl=F_LOSSY))

    def fill_val(s, b, size, ty):
        k = ty.k if ty is not None else 'int'
        if not b.t:
            v = 0
            for i in range(size):
                v |= (b.c & 255) << (8 * i)
            if k == 'ptr':
                return NULL if v == 0 else ptr(Obj('?fill', None, 'in'))
            return s.conv(const(v), ty, size)
        if size == 1:
            return b
        return s.fresh('fill', ty)

    def inside(s, st, off, size, lo_, hi_):
        a = st.iv(sub(off, lo_))
        b = st.iv(sub(addc(off, size), hi_))
        if a[0] >= 0 and b[1] <= 0:
            return True
        if a[1] <= -size or b[0] >= size:
            return False
        return None

    def opaque_load(s, st, o, off, size, ty, vals):
        return s.fresh('ld', ty)

    def tbl_load(s, st, node, o, off, size, ty):
        lo, hi = st.iv(off)
        vals = []
        d = node.a
        osz = o.size or 0
        lo = max(lo, 0)
        hi = min(hi, osz - size)
        k = ty.k if ty is not None else 'int'
        if k == 'ptr':
            # function / object pointer tables: gated choice
            import math
            g = 0
            for _, kk in off.t:
                g = math.gcd(g, kk)
            g = max(g, 1)
            r = None
            x = int(lo) + ((off.c - int(lo)) % g)
            while x <= hi:
                e = d.get(x)
                v = e[1] if e is not None else NULL
                r = v if r is None else s.merge_val(rng(addc(off, -x), 0, 0), v, r)
                x += g
            return r if r is not None else s.fresh('tbl', ty)
        import math
        g = 0
        for _, kk in off.t:
            g = math.gcd(g, kk)
        g = max(g, 1)
        x = int(lo) + ((off.c - int(lo)) % g)
        n = 0
        pairs = []
        while x <= hi:
            v = s.ld(st, node, o, const(x), size, ty, {})
            if isinstance(v, Lin) and not v.t:
                vals.append(v.c)
                pairs.append((x, v))
            else:
                return s.fresh('tbl', ty)
            x += g
            n += 1
            if n > 5000:
                break
        isf = k in ('float', 'double')
        if not vals:
            return s.fresh('tbl', ty)
        if len(set(vals)) == 1:
            return pairs[0][1]
        if len(vals) <= 2:
            return ite(rng(addc(off, -pairs[0][0]), 0, 0), pairs[0][1], pairs[1][1])
        o.cells = d
        t = atom('tbl', o.name, off, size, o.id, lo=min(s.allv(o, d, size, ty, vals)), hi=max(s.allv(o, d, size, ty, vals)), isf=isf)
        l = lin(t)
        if not isf and (min(vals) > t.lo or max(vals) < t.hi):
            try:
                st._bound(l, min(vals), max(vals))
            except Dead:
                pass
        return l

    def allv(s, o, d, size, ty, vals):
        vs = [e[1].c for x, e in d.items() if isinstance(e[1], Lin) and not e[1].t]
        if len(d) * size < (o.size or 0):
            vs.append(0)
        isf = ty is not None and ty.k in ('float', 'double')
        return (vs or [0]) + ([] if isf else vals)

    qact = {}

    def qsub(s, o, v, woff, wsize):
        """a read-modify-write: the previous content of the cell being written is the carried value"""
        if not isinstance(v, Lin) or not v.t:
            return v
        m = {}
        for rec, act in s.qact.items():
            if rec.obj is o and act[1] == wsize:
                for a in collect(v, lambda a: a.op == 'hv' and a.a[0] in rec.huids):
                    if a.a[1] is woff and a.a[2] == wsize:
                        m[a] = act[2]
        return subst(v, m, {}) if m else v

    def fold_load(s, st, node, o, off, size, ty, memo):
        """content of [off, off+size) after n iterations of a loop that writes the object at
        offsets that are not affine in the counter: a value carried through the iterations"""
        rec, n = node.a
        b = rec.b
        lo, hi = st.iv(off)
        if all(hi + size <= l or h <= lo for l, h in rec.ranges):
            return 'skip'
        if st.iv(n)[1] <= 0:
            return 'skip'
        key = (node.id, off.id, size, ty.k if ty is not None else None, ty.n if ty is not None and ty.k == 'int' else None)
        r = rec.memo.get(key)
        if r is not None:
            return r
        k = ty.k if ty is not None else 'int'
        if k == 'ptr' or s.depth_fold > 16:
            return s.fresh('arr', ty)
        isf = k in ('float', 'double')
        init = s.ld(st, node.parent, o, off, size, ty, {})
        if isinstance(init, C):
            init = b2i(init)
        if not isinstance(init, Lin) or init.isf != isf:
            return s.fresh('arr', ty)
        uid = rec.uid
        x, xa = off, None
        live = s.loopstack[s.loopstack.index(uid):] if uid in s.loopstack else (uid,)
        if depends(off, lambda a: a.op in ('k', 'mu', 'mub') and (a.a[0] in live or uid in (mm.LOOPS.get(a.a[0]) or {}).get('up', ())) or a.op == 'ev' and any(u in a.a[2] for u in live) or a.op in ('sy', 'sx', 'atv', 'sf'), {}):
            xa = atom('sx', nid(), lo=lo, hi=hi, fl=0)
            mm.ATOMS[xa.id] = xa
            # keep the alignment of the offset
            g = 0
            import math
            for _, kk in off.t:
                g = math.gcd(g, kk)
            x = addc(scale(lin(xa), g), off.c) if g > 1 else lin(xa)
            if g > 1:
                xa.lo, xa.hi = -INF, INF
            xi = mklin(0, {a: kk // g for a, kk in off.t}) if g > 1 else off
        w = 8 * size
        full = (1 << w) - 1
        l, h = (-INF, INF) if isf else s.ivs(st, init)
        s.depth_fold += 1
        try:
            for tries in range(4):
                if not isf and tries == 3:
                    l, h = 0, full
                    init = mk_mod(init, 1 << w, st)
                ya = atom('sy', nid(), lo=l, hi=h, isf=isf, fl=0)
                mm.ATOMS[ya.id] = ya
                Y = lin(ya)
                sv = s.qact
                s.qact = dict(sv)
                s.qact[rec.q] = (x, size, Y)
                try:
                    step = s.ld(b, b.mem[o], o, x, size, ty, {})
                finally:
                    s.qact = sv
                if isinstance(step, C):
                    step = b2i(step)
                if not isinstance(step, Lin) or step.isf != isf:
                    return s.fresh('arr', ty)
                step = b.simp(step)
                for a in collect(step, lambda a: a.op == 'hv' and a.a[0] in rec.huids and a.a[2] == size)[:4]:
                    # the previous content of a cell this iteration may write
                    if a.a[1] is x:
                        step = b.simp(subst(step, {a: Y}, {}))
                        continue
                    c = rng(sub(x, a.a[1]), 0, 0)
                    parts = []
                    for want, m in ((c, {a: Y}), (cnot(c), {})):
                        t = b.copy()
                        try:
                            t.assume(want, node=False)
                            parts.append(t.simp(subst(step, m, {c: CT, cnot(c): CF} if m else {c: CF, cnot(c): CT})))
                        except Dead:
                            parts.append(None)
                    if parts[0] is None or parts[1] is None:
                        step = parts[0] if parts[1] is None else parts[1]
                        if step is None:
                            return s.fresh('arr', ty)
                    else:
                        step = ite(c, parts[0], parts[1])
                if step is Y:
                    rec.memo[key] = 'skip'
                    return 'skip'
                if isf:
                    break
                if tries == 3:
                    step = mk_mod(step, 1 << w, b)
                    break
                l2, h2 = s.ivs(b, step)
                if l2 >= l and h2 <= h:
                    break
                l, h = min(l, l2), max(h, h2)
                if l < -(1 << w) or h > (1 << w):
                    l, h = -(1 << w - 1), full
        finally:
            s.depth_fold -= 1
        r = lin(atom('sf', uid, n, init, step, ya.id, xi if xa is not None else ZERO, xa.id if xa is not None else 0, lo=l, hi=h, isf=isf))
        if xa is not None:
            mm.SFX[r.t[0][0].id if len(r.t) == 1 else 0] = (s, st.copy(), node.parent, o, x, size, ty, None if isf else 0 if tries < 3 else w)
        rec.memo[key] = r
        rec.keep.append((off, node))
        return r

    def sf_init(s, aid):
        """the initial content of a cell recurrence as a function of its position"""
        e = mm.SFX.get(aid)
        if e is None:
            return None
        it, st, node, o, x, size, ty, w = e
        sv = it.depth_fold
        it.depth_fold = 0
        try:
            v = it.ld(st, node, o, x, size, ty, {})
        except Dead:
            return None
        finally:
            it.depth_fold = sv
        if isinstance(v, C):
            v = b2i(v)
        if not isinstance(v, Lin) or v.isf != (w is None):
            return None
        return mk_mod(v, 1 << w, st) if w else v

    depth_fold = 0

    def ivs(s, st, x):
        return st.iv(x)

    def arr_load(s, st, node, o, off, size, ty, memo):
        kk, n, aoff, asize, aval, acond = node.a[:6]
        K = lin(kk)
        stride = 0
        for a, c in aoff.t:
            if a is kk:
                stride = c
        base = add(aoff, K, -stride)
        if depends(base, lambda a: a is kk, {}):
            return s.fresh('arr', ty)
        d = st.simp(sub(off, base))
        lo, hi = st.iv(d)
        nlo, nhi = st.iv(n)
        if stride == 0:
            return s.fresh('arr', ty)
        if stride < 0:
            return s.fresh('arr', ty)
        # quick disjointness
        if hi <= -size:
            return 'skip'
        e = st.iv(sub(d, scale(n, stride)))
        if e[0] >= asize - stride + 0 and e[0] >= 0:
            return 'skip'
        rest = {}
        q = {}
        for a, c in d.t:
            if c % stride == 0:
                q[a] = c // stride
            else:
                rest[a] = c
        if rest:
            return s.fresh('arr', ty)
        cq, r = divmod(d.c, stride)
        j = mklin(cq, q)
        if r >= asize and r + size <= stride:
            return 'skip'
        if r == 0 and size == asize:
            inr = cand(rng(j, 0, None), rng(sub(j, n), None, -1))
            memo2 = {}
            c = cand(inr, subst(acond, {kk: j}, memo2))
            v = s.conv(subst(aval, {kk: j}, memo2), ty, size)
            ev = st.evalc(c)
            if ev is True:
                return st.simp(v)
            if ev is False:
                return 'skip'
            key = (node.parent.id, off.id, size)
            rv = memo.get(key)
            if rv is None:
                rv = s.ld(st, node.parent, o, off, size, ty, memo)
                memo[key] = rv
            return s.merge_val(st.simpc(c), v, rv)
        if r + size <= asize and size == 1:
            inr = cand(rng(j, 0, None), rng(sub(j, n), None, -1))
            memo2 = {}
            c = cand(inr, subst(acond, {kk: j}, memo2))
            v = s.conv(s.byte_of(st, subst(aval, {kk: j}, memo2), r, asize), ty, 1)
            ev = st.evalc(c)
            if ev is True:
                return v
            if ev is False:
                return 'skip'
            return s.merge_val(c, v, s.ld(st, node.parent, o, off, size, ty, memo))
        if size > 1 and asize == 1 and stride == 1:
            return s.bytes_load(st, node, o, off, size, ty)
        if size > asize and ty is not None and ty.k == 'int':
            return s.bytes_load(st, node, o, off, size, ty)
        return s.fresh('arr', ty)

    def bytes_load(s, st, node, o, off, size, ty):
        r = ZERO
        src = None
        bs = []
        for i in range(size):
            b = s.ld(st, node, o, addc(off, i), 1, None, {})
            b = s.asint(b) if not isinstance(b, Lin) else b
            bs.append(b)
        # recognise all bytes of one value
        u = s.reassemble(bs)
        if u is not None:
            r = u
        else:
            for i, b in enumerate(bs):
                r = add(r, scale(mk_mod(b, 256, st), 1 << (8 * i)))
        return s.conv(r, ty, size)

    def reassemble(s, bs):
        """bytes that are exactly the bytes of one term"""
        n = len(bs)
        if n == 1 or all(not b.t for b in bs):
            return None
        t0 = lone(bs[0])
        if t0 is None or t0.op != 'mod' or t0.a[1] != 256:
            return None
        x = t0.a[0]
        for j in range(1, n):
            if bs[j] is not mk_mod(mk_fdiv(x, 1 << (8 * j)), 256):
                return None
        lo, hi = static_iv(x)
        if lo >= 0 and hi < 1 << (8 * n):
            return x
        return mk_mod(x, 1 << (8 * n))

    # ------------------------------------------------------------ stores
    def store(s, st, p, v, size, ins=None):
        p = st.simp(p)
        if isinstance(p, PIte):
            for c, q in ((p.c, p.a), (cnot(p.c), p.b)):
                q = st.simp(q)
                if isinstance(q, PIte):
                    s.store(st, q, v, size, ins)     # imprecise but conservative below
                    continue
                if isinstance(q, Ptr):
                    if q.obj is NULLOBJ:
                        continue
                    off = st.simp(q.off)
                    if ins is not None:
                        try:
                            s2 = st.copy()
                            s2.assume(c)
                            s.check_access(s2, q, off, const(size), ins, 'store')
                        except Dead:
                            continue
                    old = s.chain(st, q.obj)
                    s.raw_store(st, q.obj, off, v, size, q.sub)
                    new = st.mem[q.obj]
                    st.mem[q.obj] = Node('I', (c, new, old), None)
            return
        if not isinstance(p, Ptr):
            return
        off = st.simp(p.off)
        o = p.obj
        if ins is not None:
            s.check_access(st, p, off, const(size), ins, 'store')
        s.raw_store(st, o, off, v, size, p.sub)

    def raw_store(s, st, o, off, v, size, sub_=None):
        if isinstance(v, (Lin, PIte, C)):
            v = st.simp(v)
        if isinstance(v, C):
            v = b2i(v)
        if not off.t:
            c = off.c
            n = s.wchain(st, o)
            d = n.a
            e = d.get(c)
            if e is not None and e[0] == size:
                d[c] = (size, v)
                return
            clash = [x for x in range(c - 15, c + size) if x in d and x + d[x][0] > c]
            for x in clash:
                sz, ov = d.pop(x)
                if x >= c and x + sz <= c + size:
                    continue
                for j in range(sz):
                    if not (c <= x + j < c + size):
                        d[x + j] = (1, s.byte_of(st, ov, j, sz))
            d[c] = (size, v)
            return
        n = s.chain(st, o)
        # extent of the write; a store that leaves its array is reported by check_access,
        # the analysis goes on under the assumption that it stayed inside
        lo, hi = st.iv(off)
        hi += size
        if sub_ is not None:
            l2, h2 = st.iv(sub_[0])
            ln = sub_[1] if not isinstance(sub_[1], Lin) else st.iv(sub_[1])[1]
            lo, hi = max(lo, l2), min(hi, h2 + ln)
            if sub_[2] is not None:
                lo, hi = max(lo, sub_[2][0]), min(hi, sub_[2][1])
        if o.size is not None and not isinstance(o.size, Lin):
            lo, hi = max(lo, 0), min(hi, o.size)
        st.mem[o] = Node('W', (off, size, v, (lo, hi), sub_), n)

    def fill(s, st, o, lo, hi, b):
        """bytes [lo,hi) := b (Lin)"""
        n = s.chain(st, o)
        if n.k == 'D' and not lo.t and not hi.t:
            n = s.wchain(st, o)
            d = n.a
            for x in list(d):
                sz, ov = d[x]
                if x + sz > lo.c and x < hi.c:
                    del d[x]
                    if x < lo.c or x + sz > hi.c:
                        for j in range(sz):
                            if not (lo.c <= x + j < hi.c):
                                d[x + j] = (1, s.byte_of(st, ov, j, sz))
            if o.size is not None and lo.c <= 0 and hi.c >= o.size:
                st.mem[o] = Node('F', (lo, hi, b), Node('B', ('undef', o), None))
                return
        st.mem[o] = Node('F', (lo, hi, b), st.mem[o])

    def havoc(s, st, o, lo=None, hi=None, ev=None, base=None):
        """unknown contents; ev: the environment action (see occurrence) and part that wrote them"""
        u = nid()
        if ev is not None:
            mm.HVNAME[u] = (ev[0], ev[1], base if base is not None else lo if lo is not None else ZERO)
        if lo is not None and hi is not None:
            # where it can reach, by what is known here
            s.reach[u] = (max(st.iv(lo)[0], 0), st.iv(hi)[1])
        st.mem[o] = Node('H', (lo, hi, u), s.chain(st, o))

    # -------------------------------------------------- values supplied by the environment
    def occurrence(s, st, kind):
        """the n-th execution of an environment action on the current way through the function"""
        k = ('n', kind)
        n = st.ghost.get(k, 0)
        st.ghost[k] = n + 1
        return (kind, n, tuple(s.loopstack))

    def asked(s, st, nm, args, lo, hi):
        """the result of a question about memory contents: the same for the same contents"""
        key = [nm, tuple(s.loopstack)]
        for x in args:
            x = st.simp(x)
            if isinstance(x, Ptr) and x.obj is not NULLOBJ:
                key.append((s.chain(st, x.obj).id, x.off))
            elif isinstance(x, (Lin, C)):
                key.append(x)
            else:
                key.append(nid())
        key = tuple(key)
        a = s.answers.get(key)
        if a is None:
            a = s.answers[key] = s.evatom(s.occurrence(st, nm), 'ret', lo, hi)
        return lin(a)

    def evatom(s, o, part, lo=None, hi=None, isf=False, off=None):
        a = (o[0], o[1], o[2], part) + ((off,) if off is not None else ())
        if isf:
            return atom('ev', *a, isf=True, fl=F_LOSSY if o[2] else F_IN)
        return atom('ev', *a, lo=lo, hi=hi, fl=F_LOSSY if o[2] else F_IN)

    def evval(s, o, part, ty, lo=None, hi=None):
        if ty.k == 'int' and ty.n == 1:
            return batom('ev', o[0], o[1], o[2], part)
        if ty.k == 'int':
            return lin(s.evatom(o, part, 0 if lo is None else lo, (1 << ty.n) - 1 if hi is None else hi))
        if ty.k in ('float', 'double'):
            return lin(s.evatom(o, part, isf=True))
        if ty.k == 'ptr':
            r = s.evobjs.get((o, part))
            if r is None:
                r = ptr(Obj('?%s.%s' % (o[0], part), None, 'in'))
                r.obj.tag = 'nonnull'
                if not o[2]:
                    r.obj.label = '%s#%d.%s' % (o[0], o[1], part)
                s.evobjs[o, part] = r
            return pite(batom('ev', o[0], o[1], o[2], part + '.null'), ptr(NULLOBJ), r)
        if ty.k == 'struct':
            return Agg([s.evval(o, '%s.%d' % (part, i), f) for i, f in enumerate(ty.fields)])
        return s.fresh(str(o[0]), ty)

    def memcpy(s, st, d, sr, n, ins=None):
        d, sr, n = st.simp(d), st.simp(sr), st.simp(n)
        if isinstance(d, PIte) or isinstance(sr, PIte):
            if isinstance(sr, PIte) and isinstance(d, Ptr):
                c = sr.c
                o = d.obj
                s1 = st.copy()
                s.memcpy(s1, d, sr.a, n, ins)
                s2 = st.copy()
                s.memcpy(s2, d, sr.b, n, ins)
                st.mem[o] = Node('I', (c, s1.mem[o], s2.mem[o]), None)
                return
            if isinstance(d, PIte):
                for q in (d.a, d.b):
                    while isinstance(q, PIte):
                        q = q.a
                    if isinstance(q, Ptr) and q.obj is not NULLOBJ:
                        s.havoc(st, q.obj)
            return
        if not isinstance(d, Ptr) or not isinstance(sr, Ptr):
            if isinstance(d, Ptr):
                s.havoc(st, d.obj)
            return
        doff, soff = st.simp(d.off), st.simp(sr.off)
        if ins is not None:
            s.check_access(st, d, doff, n, ins, 'memcpy-dst')
            s.check_access(st, sr, soff, n, ins, 'memcpy-src')
        if not n.t and n.c == 0:
            return
        sn = s.chain(st, sr.obj)
        # freeze the source top (ownership is released)
        if sn.k == 'D' and sn.own == st.tok:
            sn.own = None
        if not n.t and n.c == 1 and d.obj.kind != 'null':
            v = s.ld(st, sn, sr.obj, soff, 1, ir.ity(8), {})
            if isinstance(v, (Lin, C)) and not (isinstance(v, Lin) and any(a.op in OPAQUE_LD for a, _ in v.t)):
                s.store(st, ptr(d.obj, doff, d.sub), b2i(v) if isinstance(v, C) else v, 1)
                return
        dn = s.chain(st, d.obj)
        if not n.t and d.obj.size is not None and not doff.t and doff.c <= 0 and doff.c + n.c >= d.obj.size and d.obj is not sr.obj:
            dn = Node('B', ('undef', d.obj), None)
        st.mem[d.obj] = Node('Y', (doff, add(doff, n), sn, sr.obj, soff), dn)

    # ------------------------------------------------------------ bounds obligations
    def check_access(s, st, p, off, n, ins, kind):
        if s.quiet:
            return
        o = p.obj
        if o.kind == 'null':
            if kind.startswith('memcpy') or off.t:
                return
            s.note(ins, 'null', 'violated' if not s.inexact(st) else 'unproved', None, o, off)
            return
        base, size = ZERO, o.size
        if p.sub is not None:
            base, size = p.sub[:2]
        if size is None:
            return
        if not isinstance(size, Lin):
            size = const(size)
        n0 = st.iv(n)
        if n0[1] <= 0:
            return
        rel = sub(off, base)
        lo, _ = st.iv(rel)
        d = sub(add(rel, n), size)
        _, hi = st.iv(d)
        if lo >= 0 and hi <= 0:
            s.note(ins, kind, 'proved', None, o, off)
            return
        bad = cor(rng(rel, None, -1), rng(d, 1, None))
        if n0[0] <= 0:
            bad = cand(bad, rng(n, 1, None))
        ok = s.violable(st, bad)
        s.note(ins, kind, 'violated' if ok else 'unproved', (lo, hi), o, off, st=st, n=n, sub_=p.sub, bad=bad)

    def inexact(s, st):
        return False

    def note(s, ins, kind, status, rngv, o, off, st=None, n=None, sub_=None, bad=None):
        f, l = s.where(ins)
        key = (f, l, ins.fn.name, kind, o.name)
        rank = {'proved': 0, 'unproved': 1, 'violated': 2}
        old = s.oblig.get(key)
        if old is None or rank[status] > rank[old[0]]:
            s.oblig[key] = (status, rngv, o, off, tuple(x.fn.name for x in s.stack))
        if status != 'proved':
            s.emit('access', ins, st, status=status, akind=kind, obj=o, off=off, rng=rngv, n=n, sub=sub_, bad=bad)

    # exactness: is the (negated-safe) condition satisfiable for sure?  True only when
    # it is a range over independent input leaves whose extremes are attainable
    def violable(s, st, c):
        v = st.evalc(c)
        if v is True:
            return s.path_exact(st)
        if v is False:
            return False
        if c.op == 'or':
            return any(s.violable(st, x) for x in c.a[0])
        if c.op == 'and':
            return False
        if c.op not in ('rng', 'ne'):
            return False
        K = c.a[0]
        if not s.attainable(st, K, 0):
            return False
        return s.path_exact(st)

    def attainable(s, st, K, d):
        """are both ends of K's interval attained by some input?"""
        if K.fl & (F_LOSSY | F_UNDEF):
            return False
        if d > 6:
            return False
        seen = set()
        for a, k in K.t:
            if a.op in ('in', 'bits', 'sbits', 'param', 'rd'):
                if a in seen:
                    return False
                seen.add(a)
                # relational facts on the leaf make the corner questionable
                for K2 in st.rel.get(a, ()):
                    if len(K2.t) > 1 and K2 is not K and not all(x is a or x.op == 'k' for x, _ in K2.t):
                        return False
                for f in st.facts:
                    if f.op in ('b',) and False:
                        return False
            elif a.op == 'k':
                # loop counter: its upper bound must come from guard facts over exact leaves
                if not s.k_exact(st, a, d + 1):
                    return False
            elif a.op in ('fdiv', 'mod', 'ftrunc', 'sum'):
                if a.a[0].isf or not s.attainable(st, a.a[0], d + 1):
                    return False
            elif a.op == 'ite':
                c, x, y = a.a
                if not (s.cond_leaf(c) and (not x.t or s.attainable(st, x, d + 1)) and (not y.t or s.attainable(st, y, d + 1))):
                    return False
            elif a.op == 'mul':
                if not all(s.attainable(st, x, d + 1) for x in a.a):
                    return False
            else:
                return False
        return True

    def k_exact(s, st, kat, d=0):
        found = False
        for K2 in st.rel.get(kat, ()):
            for x, c in K2.t:
                if x is kat:
                    found = True
                    continue
                if not s.attainable(st, lin(x), d + 1):
                    return False
        if found:
            return True
        lo, hi = st.iv(lin(kat))
        return hi < 1 << 31

    def cond_leaf(s, c):
        if c.op in ('rng', 'ne'):
            return all(a.op in ('in', 'bits', 'sbits', 'param', 'rd') for a, _ in c.a[0].t)
        if c.op in ('and', 'or'):
            return all(s.cond_leaf(x) for x in c.a[0])
        return False

    def path_exact(s, st):
        return True

    # ------------------------------------------------------------ merging
    def merge_val(s, c, a, b):
        if a is b or b is None:
            return a
        if a is None:
            return b
        if c is CT:
            return a
        if c is CF:
            return b
        if isinstance(a, Lin) and isinstance(b, Lin):
            if a.isf != b.isf:
                if a.isf:
                    b = s.b2f(b, 8) if b.t or b.c else fconst(0)
                else:
                    a = s.b2f(a, 8) if a.t or a.c else fconst(0)
            return ite(c, a, b)
        if isinstance(a, C) and isinstance(b, C):
            r = cite(c, a, b)
            if csize(r) > 150:
                return batom('fr_big', nid())
            return r
        if isinstance(a, C) and isinstance(b, Lin):
            return ite(c, b2i(a), b)
        if isinstance(a, Lin) and isinstance(b, C):
            return ite(c, a, b2i(b))
        if isinstance(a, (Ptr, PIte, FnPtr)) and isinstance(b, (Ptr, PIte, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return ptr(a.obj, ite(c, a.off, b.off), a.sub if a.sub == b.sub else None)
            return pite(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
            return Agg([s.merge_val(c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, Lin) and not a.isf and isinstance(b, (Ptr, PIte, FnPtr)):
            return pite(c, s.toptr(None, a), b)
        if isinstance(b, Lin) and not b.isf and isinstance(a, (Ptr, PIte, FnPtr)):
            return pite(c, a, s.toptr(None, b))
        return a

    def merge(s, states):
        if len(states) == 1:
            return states[0]
        states = list(states)
        while len(states) > 1:
            # deepest common prefix pair (scan neighbours; states of one branch are adjacent)
            best = None
            for i in range(len(states) - 1):
                c = s.common(states[i].path, states[i + 1].path)
                if best is None or c.d > best[0]:
                    best = (c.d, i)
            i = best[1]
            m = s.merge2(states[i], states[i + 1])
            states[i:i + 2] = [m]
        return states[0]

    def common(s, p, q):
        while p is not q:
            if p.d >= q.d:
                p = p.p
            else:
                q = q.p
        return p

    def opq(s, p, base):
        while p is not base:
            if p.c.op == 'b' and p.c.a[0].op in ('fr_join', 'fr_path') or p.c.op == 'not' and p.c.a[0].op == 'b' and p.c.a[0].a[0].op in ('fr_join', 'fr_path'):
                return True
            p = p.p
        return False

    def pathcond(s, p, base):
        cs = []
        while p is not base:
            cs.append(p.c)
            p = p.p
        return cand(*cs[::-1])

    def merge2(s, A, B):
        base = s.common(A.path, B.path)
        cA, cB = s.pathcond(A.path, base), s.pathcond(B.path, base)
        nA, nB = csize(cA), csize(cB)
        oA, oB = s.opq(A.path, base), s.opq(B.path, base)
        if (oA or nA > 1000) and (oB or nB > 1000):
            if oA and nA <= 1000 or oB and nB <= 1000:
                gate = cA if oA and nA <= nB else cnot(cB) if nB <= 1000 else cA
            else:
                gate = batom('fr_path', nid())
        elif oA or nA > 1000:
            gate = cnot(cB)
        elif oB or nB > 1000 or nA <= nB:
            gate = cA
        else:
            gate = cnot(cB)
        join = cor(cA, cB)
        if csize(join) > 1000:
            join = batom('fr_join', nid())
        R = St()
        R.path = base if join is CT else PNode(join, base)
        # environment
        ea, eb = A.env, B.env
        env = {}
        rel = {}
        for K, (lo, hi) in ea.items():
            e = eb.get(K)
            if e is None:
                e = B.iv0(K)
            l, h = min(lo, e[0]), max(hi, e[1])
            slo, shi = static_iv(K)
            if l > slo or h < shi:
                env[K] = (l, h)
        for K, (lo, hi) in eb.items():
            if K in ea:
                continue
            e = A.iv0(K)
            l, h = min(lo, e[0]), max(hi, e[1])
            slo, shi = static_iv(K)
            if l > slo or h < shi:
                env[K] = (l, h)
        for K in env:
            if 1 < len(K.t) <= 10:
                for a, _ in K.t:
                    rel[a] = rel.get(a, ()) + (K,)
        R.env, R.rel = env, rel
        fa, fb = A.facts, B.facts
        if len(fa) > len(fb):
            fa, fb = fb, fa
        R.facts = {c: v for c, v in fa.items() if fb.get(c) is v}
        R.ors = tuple(o for o in A.ors if o in B.ors)
        if join.op == 'or' and len(R.ors) < 24:
            R.ors = R.ors + (join,)
        elif join is not CT and join.op != 'or':
            try:
                R._assume(join)
            except Dead:
                pass
        R.eqs = {a: l for a, l in A.eqs.items() if B.eqs.get(a) is l}
        # phis
        for k, v in A.phis.items():
            R.phis[k] = s.merge_val(gate, v, B.phis.get(k)) if k in B.phis else v
        for k, v in B.phis.items():
            if k not in A.phis:
                R.phis[k] = v
        R.ghost = s.merge_ghost(gate, A.ghost, B.ghost)
        # memory
        ma, mb = A.mem, B.mem
        for o, n in ma.items():
            m = mb.get(o)
            if m is None or m is n:
                R.mem[o] = n
                if n.own is not None and n.own == A.tok:
                    n.own = None
            else:
                R.mem[o] = s.merge_mem(o, gate, n, m, A, B, R)
        for o, m in mb.items():
            if o not in ma:
                R.mem[o] = m
        return R

    def merge_ghost(s, gate, a, b):
        if a == b:
            return a
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x == y:
                r[k] = x
            elif isinstance(x, frozenset) or isinstance(y, frozenset):
                # must-facts: intersection
                r[k] = (x or frozenset()) & (y or frozenset())
            elif isinstance(x, Lin) and isinstance(y, Lin):
                r[k] = ite(gate, x, y)
            elif k[0] == 'n':
                r[k] = max(x or 0, y or 0)
        return r

    def merge_mem(s, o, gate, n, m, A, B, R):
        if n.k == 'D' and m.k == 'D' and n.parent is m.parent:
            d = {}
            da, db = n.a, m.a
            ok = True
            par = n.parent
            for x in set(da) | set(db):
                ea, eb = da.get(x), db.get(x)
                if ea is not None and eb is not None:
                    if ea[1] is eb[1] and ea[0] == eb[0]:
                        d[x] = ea
                        continue
                    if ea[0] != eb[0]:
                        ok = False
                        break
                    d[x] = (ea[0], s.merge_val(gate, ea[1], eb[1]))
                else:
                    e, dd, stt = (ea, db, B) if eb is None else (eb, da, A)
                    sz = e[0]
                    # overlapping differently-sized cell on the other side?
                    if any((y in dd and y + dd[y][0] > x) for y in range(x - 15, x + sz)):
                        ok = False
                        break
                    ty = s.ty_of(e[1], sz)
                    try:
                        ov = s.ld(stt, par, o, const(x), sz, ty, {})
                    except RecursionError:
                        ok = False
                        break
                    d[x] = (sz, s.merge_val(gate, e[1], ov) if eb is None else s.merge_val(gate, ov, e[1]))
            if ok:
                return Node('D', d, par, R.tok)
        return Node('I', (gate, n, m), None)

    def ty_of(s, v, size):
        if isinstance(v, (Ptr, PIte, FnPtr)):
            return ir.PTR
        if isinstance(v, Lin) and v.isf:
            return ir.DOUBLE if size == 8 else ir.FLOAT
        return ir.ity(size * 8)

    # ------------------------------------------------------------ running
    def call(s, fn, args, st, site=None):
        """returns (state or None, value)"""
        if len(s.stack) > s.maxdepth or any(f.fn is fn for f in s.stack):
            return st, s.fresh('rec_' + fn.name, fn.rty)
        fr = Frame(fn, len(s.stack), site)
        if len(args) > len(fn.params) and site is not None and getattr(site, 'a', None) and len(site.a) >= len(args):
            fr.va = [(site.a[i][0], args[i]) for i in range(len(fn.params), len(args))]
        s.stack.append(fr)
        if not s.quiet:
            s.visited.add(fn)
        try:
            for i, (ty, nm) in enumerate(fn.params):
                fr.regs[nm] = args[i] if i < len(args) else s.fresh('arg', ty)
            ir.compute_loops(fn)
            saved = st.phis
            st.phis = {}
            rets, exits, backs = s.region(fr, set(fn.order), fn.order[0], [(None, st)], None)
            if not rets:
                return None, None
            R = s.merge(rets)
            rv = R.phis.get('$ret')
            R.phis = saved
            for o in fr.objs:
                R.mem.pop(o, None)
            return R, rv
        finally:
            s.stack.pop()

    def region(s, fr, body, entry, inc, loop):
        """run blocks of `body` starting at entry; returns (ret states, exit edges, back edges)"""
        fn = fr.fn
        rpon = fn.rpon
        pend = {entry: [st for _, st in inc]}
        rets, exits, backs = [], [], []
        order = sorted(body & set(rpon), key=lambda b: rpon[b])
        for b in order:
            sts = pend.pop(b, None)
            if not sts:
                continue
            if b in fn.loops and b != loop:
                st = s.merge(sts)
                lr, lex = s.run_loop(fr, b, st)
                rets.extend(lr)
                for dst, s2 in lex:
                    if dst in body and dst != loop:
                        pend.setdefault(dst, []).append(s2)
                    elif dst == loop:
                        backs.append(s2)
                    else:
                        exits.append((dst, s2))
                continue
            st = s.merge(sts)
            blk = fn.blocks[b]
            for ph in blk.phis:
                fr.regs[ph.res] = st.phis.pop(ph.res, None) if ph.res in st.phis else s.fresh('phi', ph.ty)
            for dst, s2 in s.block(fr, blk, st):
                if dst is None:
                    rets.append(s2)
                elif dst == loop:
                    backs.append(s2)
                elif dst in body:
                    pend.setdefault(dst, []).append(s2)
                else:
                    exits.append((dst, s2))
        return rets, exits, backs

    def edge(s, fr, src, dst, st):
        for ph in fr.fn.blocks[dst].phis:
            for v, b in ph.a:
                if b == src:
                    x = s.val(fr, st, v, ph.ty)
                    x = st.simp(x) if isinstance(x, (Lin, PIte, C)) else x
                    if isinstance(x, Lin) and len(x.t) > 8 and not x.isf:
                        lo, hi = static_iv(x)
                        x = lin(atom('sum', x, lo=lo, hi=hi))
                    st.phis[ph.res] = x
                    break
        return dst, st

    def block(s, fr, blk, st):
        regs = fr.regs
        for ins in blk.ins:
            s.steps += 1
            if s.steps > s.budget:
                raise Budget()
            op = ins.op
            if op == 'call' or op == 'invoke':
                if s.deadline is not None and time.time() > s.deadline:
                    raise Budget()
                st, v = s.do_call(fr, ins, st)
                if st is None:
                    return []
                if ins.res is not None:
                    regs[ins.res] = v if v is not None else s.fresh('void', ins.ty)
                if op == 'invoke':
                    return [s.edge(fr, blk.name, ins.x['normal'], st)]
                continue
            if op == 'br':
                return [s.edge(fr, blk.name, ins.a[0], st)]
            if op == 'condbr':
                c = s.ascond(s.val(fr, st, ins.a[0], ir.ity(1)))
                c = st.simpc(c)
                s.emit('branch', ins, st, cond=c)
                if c is CT:
                    return [s.edge(fr, blk.name, ins.a[1], st)]
                if c is CF:
                    return [s.edge(fr, blk.name, ins.a[2], st)]
                out = []
                s2 = st.copy()
                try:
                    st.assume(c)
                    out.append(s.edge(fr, blk.name, ins.a[1], st))
                except Dead:
                    pass
                try:
                    s2.assume(cnot(c))
                    out.append(s.edge(fr, blk.name, ins.a[2], s2))
                except Dead:
                    pass
                return out
            if op == 'switch':
                return s.do_switch(fr, blk, ins, st)
            if op == 'ret':
                st.phis['$ret'] = s.val(fr, st, ins.a[0], ins.ty) if ins.a else None
                if isinstance(st.phis['$ret'], (Lin, C, PIte)):
                    st.phis['$ret'] = st.simp(st.phis['$ret'])
                if len(s.stack) <= 1 or True:
                    s.emit('ret', ins, st, val=st.phis['$ret'], depth=len(s.stack))
                return [(None, st)]
            if op == 'unreachable':
                s.emit('unreachable', ins, st)
                return []
            v = s.exec(fr, ins, st)
            if ins.res is not None:
                regs[ins.res] = v
        return []

    def do_switch(s, fr, blk, ins, st):
        w = ins.ty.n
        x = s.val(fr, st, ins.a[0], ins.ty)
        x = s.asint(x)
        x = urep(x, w, st)
        groups = {}
        for cv, dst in ins.a[2]:
            groups.setdefault(dst, []).append(cv % (1 << w))
        s.emit('switch', ins, st, val=x)
        out = []
        allc = []
        for dst, cvs in groups.items():
            c = cor(*[rng(x, v, v) for v in cvs])
            allc.append(c)
            c = st.simpc(c)
            if c is CF:
                continue
            s2 = st.copy()
            try:
                s2.assume(c)
                out.append(s.edge(fr, blk.name, dst, s2))
            except Dead:
                pass
        nd = cand(*[cnot(c) for c in allc])
        nd = st.simpc(nd)
        if nd is not CF:
            try:
                st.assume(nd)
                out.append(s.edge(fr, blk.name, ins.a[1], st))
            except Dead:
                pass
        # merge edges to the same target happens at the target
        return out

    def exec(s, fr, ins, st):
        op = ins.op
        a = ins.a
        if op == 'load':
            v = s.load(st, s.val(fr, st, a[0], ir.PTR), ins.ty.size(), ins.ty, ins)
            if ins.ty.k == 'int' and ins.ty.n == 1:
                v = s.ascond(v)
            return v
        if op == 'store':
            v = s.val(fr, st, a[0], ins.ty)
            p = s.val(fr, st, a[1], ir.PTR)
            s.emit('store', ins, st, ptr=p, val=v, size=ins.ty.size())
            if isinstance(v, Agg):
                offs, _ = ins.ty.layout()
                for i, x in enumerate(v.v):
                    s.store(st, s.padd(p, const(offs[i])), x, ins.ty.fields[i].size(), ins)
                return None
            s.store(st, p, v, ins.ty.size(), ins)
            return None
        if op == 'gep':
            b = s.val(fr, st, a[0], ir.PTR)
            return s.gep(st, b, ins.x['bt'], [(t, s.val(fr, st, v, t)) for t, v in a[1]])
        if op == 'alloca':
            n = a[0]
            size = ins.ty.size()
            if n is not None:
                c = s.asint(s.val(fr, st, n[1], n[0]))
                c = st.simp(c)
                size = size * c.c if not c.t else scale(c, size)
            di = None
            nm = ins.res
            v = fr.fn.dbgvars.get(ins.res)
            if v is not None:
                node = fr.fn.mod.md(v)
                if node:
                    nm = node[1].get('name', nm)
                    di = (fr.fn.mod, s.p.ditype(fr.fn.mod, node[1].get('type')))
            o = s.new_obj(st, '%s:%s' % (fr.fn.name, nm), size, 'alloca', 'undef', di)
            if isinstance(size, Lin):
                s.emit('vla', ins, st, size=size)
            fr.objs.append(o)
            return ptr(o)
        if op in ('add', 'sub'):
            x, y = s.asint(s.val(fr, st, a[0], ins.ty)), s.asint(s.val(fr, st, a[1], ins.ty))
            if ins.ty.n == 1:
                c, d = s.ascond(s.val(fr, st, a[0], ins.ty)), s.ascond(s.val(fr, st, a[1], ins.ty))
                return cite(c, cnot(d), d)
            return add(x, y) if op == 'add' else sub(x, y)
        if op == 'icmp':
            x, y = s.val(fr, st, a[0], ins.ty), s.val(fr, st, a[1], ins.ty)
            return s.do_icmp(st, ins.x['pred'], x, y, ins.ty)
        if op in ('zext', 'sext', 'trunc'):
            v = s.val(fr, st, a[0], ins.x['from'])
            fw = ins.x['from'].n if ins.x['from'].k == 'int' else 64
            if fw == 1:
                c = s.ascond(v)
                return b2i(c) if op == 'zext' else scale(b2i(c), -1)
            v = s.asint(v)
            if op == 'zext':
                return urep(v, fw, st)
            if op == 'sext':
                return srep(v, fw, st)
            if ins.ty.n == 1:
                return cnot(rng(mk_mod(v, 2, st), 0, 0))
            return v
        if op in ('and', 'or', 'xor'):
            x, y = s.val(fr, st, a[0], ins.ty), s.val(fr, st, a[1], ins.ty)
            if ins.ty.k == 'int' and ins.ty.n == 1:
                x, y = s.ascond(x), s.ascond(y)
                r = cand(x, y) if op == 'and' else cor(x, y) if op == 'or' else cite(x, cnot(y), y)
                return r if csize(r) < 150 else batom('fr_b', nid())
            x, y = s.asint(x), s.asint(y)
            return {'and': and_, 'or': or_, 'xor': xor_}[op](x, y, ins.ty.n, st)
        if op == 'mul':
            return mul_(s.asint(s.val(fr, st, a[0], ins.ty)), s.asint(s.val(fr, st, a[1], ins.ty)), ins.ty.n, st)
        if op in ('shl', 'lshr', 'ashr'):
            x, y = s.asint(s.val(fr, st, a[0], ins.ty)), s.asint(s.val(fr, st, a[1], ins.ty))
            s.emit('shift', ins, st, amount=y, w=ins.ty.n)
            return {'shl': shl_, 'lshr': lshr_, 'ashr': ashr_}[op](x, y, ins.ty.n, st)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            x, y = s.asint(s.val(fr, st, a[0], ins.ty)), s.asint(s.val(fr, st, a[1], ins.ty))
            s.emit('div', ins, st, divisor=y, w=ins.ty.n)
            return divs(op, x, y, ins.ty.n, st)
        if op == 'select':
            c = st.simpc(s.ascond(s.val(fr, st, a[0], ir.ity(1))))
            return s.merge_val(c, s.val(fr, st, a[1], ins.ty), s.val(fr, st, a[2], ins.ty))
        if op == 'ptrtoint':
            return s.asint(s.val(fr, st, a[0], ir.PTR))
        if op == 'inttoptr':
            return s.toptr(st, s.asint(s.val(fr, st, a[0], ir.ity(64))))
        if op == 'freeze':
            return s.val(fr, st, a[0], ins.ty)
        if op == 'bitcast':
            v = s.val(fr, st, a[0], ins.x['from'])
            return s.conv(v, ins.ty, ins.ty.size())
        if op in ('sitofp', 'uitofp'):
            v = s.val(fr, st, a[0], ins.x['from'])
            w = ins.x['from'].n
            if w == 1:
                c = b2i(s.ascond(v))
                return i2f(c)
            v = s.asint(v)
            v = srep(v, w, st) if op == 'sitofp' else urep(v, w, st)
            return i2f(v)
        if op in ('fptosi', 'fptoui'):
            v = s.val(fr, st, a[0], ins.x['from'])
            v = s.fl(v)
            s.emit('fptoint', ins, st, val=v, w=ins.ty.n, signed=op == 'fptosi')
            return fptoi(v, op == 'fptosi', ins.ty.n, st)
        if op in ('fpext', 'fptrunc'):
            return s.fl(s.val(fr, st, a[0], ins.x['from']))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = s.fl(s.val(fr, st, a[0], ins.ty)), s.fl(s.val(fr, st, a[1], ins.ty))
            if op == 'fadd':
                return add(x, y)
            if op == 'fsub':
                return sub(x, y)
            if op == 'fmul':
                return fmul(x, y, st)
            if op == 'fdiv':
                return fdiv(x, y, st)
            return lin(atom('frem', x, y, isf=True))
        if op == 'fneg':
            return scale(s.fl(s.val(fr, st, a[0], ins.ty)), -1.0)
        if op == 'fcmp':
            x, y = s.fl(s.val(fr, st, a[0], ins.ty)), s.fl(s.val(fr, st, a[1], ins.ty))
            x, y = st.simp(x), st.simp(y)
            p = ins.x['pred']
            for z, o, sw in ((y, x, {}), (x, y, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'})):
                if isinstance(z, Lin) and len(z.t) == 1 and z.t[0][0].op == 'fspecial' and p not in ('uno', 'ord', 'true', 'false'):
                    q = sw.get(p[1:], p[1:])
                    if z.t[0][0].a[0] == 'nan':
                        return CT if p[0] == 'u' else CF
                    pos = (z.t[0][0].a[0] == 'inf') == (z.t[0][1] > 0)
                    if q == 'gt' and pos or q == 'lt' and not pos:
                        return CF
                    if q == 'le' and pos or q == 'ge' and not pos:
                        return CT
                    w = o.t[0][0].a if len(o.t) == 1 and o.c == 0 and o.t[0][1] == 1 and o.t[0][0].op == 'ite' else None
                    if w and not add(w[1], w[2]).t and add(w[1], w[2]).c == 0:
                        o = w[1] if w[0] is fle(scale(w[1], -1.0)) else w[2]
                    c = CF if not o.t else batom('nonfinite', o)
                    return c if q in ('eq', 'ge', 'le') else cnot(c)
            if p in ('uno', 'ord'):
                c = cor(s.isnan(x), s.isnan(y))
                return c if p == 'uno' else cnot(c)
            d = sub(x, y)
            q = p[1:]
            if q == 'lt':
                return flt(d)
            if q == 'le':
                return fle(d)
            if q == 'gt':
                return flt(scale(d, -1.0))
            if q == 'ge':
                return fle(scale(d, -1.0))
            if q == 'eq':
                return feq(d)
            if q == 'ne':
                return cnot(feq(d))
            return batom('fr_fc', nid())
        if op == 'extractvalue':
            v = s.val(fr, st, a[0])
            if isinstance(v, Agg):
                for i in a[1]:
                    v = v.v[i] if isinstance(v, Agg) and i < len(v.v) else s.fresh('ev', ins.ty)
                return v
            return s.fresh('ev', None)
        if op == 'insertvalue':
            v = s.val(fr, st, a[0], ins.ty)
            x = s.val(fr, st, a[1], a[3])
            if isinstance(v, Agg):
                nv = list(v.v)
                nv[a[2][0]] = x
                return Agg(nv)
            return v
        if op == 'cmpxchg':
            p = s.val(fr, st, a[0], ir.PTR)
            exp = s.asint(s.val(fr, st, a[1], ins.ty))
            new = s.asint(s.val(fr, st, a[2], ins.ty))
            size = ins.ty.size()
            old = s.load(st, p, size, ins.ty, ins)
            oc = s.occurrence(st, 'cas')
            ok = batom('ev', oc[0], oc[1], oc[2], 'ok')
            s.emit('cas', ins, st, ptr=p, expected=exp, new=new, old=old, ok=ok)
            # other threads may have changed the word: result is the expected value on success
            cur = s.evval(oc, 'seen', ins.ty)
            s.store(st, p, ite(ok, new, cur), size, ins)
            return Agg([ite(ok, exp, cur), ok])
        if op == 'atomicrmw':
            p = s.val(fr, st, a[0], ir.PTR)
            s.store(st, p, s.fresh('rmw', ins.ty), ins.ty.size(), ins)
            return s.fresh('rmw', ins.ty)
        return s.fresh('op_' + op, ins.ty)

    def isnan(s, x):
        if not x.t:
            return CF
        if all(a.op in ('i2f',) for a, _ in x.t):
            return CF
        return batom('isnan', x)

    def fl(s, v):
        if isinstance(v, Lin) and v.isf:
            return v
        if isinstance(v, Lin):
            return s.b2f(v, 8)
        return s.fresh('fl', ir.DOUBLE)

    def do_icmp(s, st, pred, x, y, ty):
        if isinstance(x, C) or isinstance(y, C):
            x, y = s.ascond(x), s.ascond(y)
            if pred == 'eq':
                return cite(x, y, cnot(y))
            if pred == 'ne':
                return cite(x, cnot(y), y)
        if ty.k == 'ptr':
            x, y = st.simp(x), st.simp(y)
            return s.pcmp(st, pred, x, y)
        return icmp(pred, s.asint(x), s.asint(y), ty.n, st)

    def pcmp(s, st, pred, x, y):
        if isinstance(x, PIte):
            return cite(x.c, s.pcmp(st, pred, x.a, y), s.pcmp(st, pred, x.b, y))
        if isinstance(y, PIte):
            return cite(y.c, s.pcmp(st, pred, x, y.a), s.pcmp(st, pred, x, y.b))
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj is y.obj:
                return icmp(pred, x.off, y.off, 64, st)
            if pred in ('eq', 'ne'):
                for p, q in ((x, y), (y, x)):
                    if q.obj is NULLOBJ:
                        if p.obj.kind in ('alloca', 'global', 'heap') or p.obj.tag == 'nonnull':
                            return CF if pred == 'eq' else CT
                        c = batom('isnull', p.obj.id)
                        return c if pred == 'eq' else cnot(c)
                return CF if pred == 'eq' else CT
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            if x is y:
                return CT if pred == 'eq' else CF
            p, q = (x, y) if isinstance(x, FnPtr) else (y, x)
            if isinstance(q, Ptr) and q.obj is NULLOBJ:
                if not p.name.startswith('*'):
                    return CF if pred == 'eq' else CT
                c = batom('isnullfn', p.name)
                return c if pred == 'eq' else cnot(c)
            if isinstance(q, FnPtr):
                return CF if pred == 'eq' else CT
        return batom('fr_pc', nid())

    # ------------------------------------------------------------ calls
    def do_call(s, fr, ins, st):
        cal = ins.x['callee']
        args = [s.val(fr, st, v, t) if v[0] != 'meta' else None for t, v in ins.a]
        args = [st.simp(x) if isinstance(x, (Lin, PIte, C)) else x for x in args]
        if cal[0] == 'glob':
            name = cal[1]
            fn = s.p.func(fr.fn.mod, name)
            tgt = None
        else:
            tgt = st.simp(s.val(fr, st, cal, ir.PTR)) if cal[0] != 'opaque' else None
            return s.call_ptr(fr, ins, st, tgt, args)
        return s.call_named(fr, ins, st, name, fn, args)

    def call_ptr(s, fr, ins, st, tgt, args):
        if isinstance(tgt, PIte):
            s1, s2 = st, st.copy()
            outs = []
            for sx, c, t in ((s1, tgt.c, tgt.a), (s2, cnot(tgt.c), tgt.b)):
                try:
                    sx.assume(c)
                    r, v = s.call_ptr(fr, ins, sx, sx.simp(t), args)
                    if r is not None:
                        r.phis['$cv'] = v
                        outs.append(r)
                except Dead:
                    pass
            if not outs:
                return None, None
            m = s.merge(outs)
            return m, m.phis.pop('$cv', None)
        if isinstance(tgt, FnPtr):
            if tgt.fn is not None:
                return s.call_named(fr, ins, st, tgt.fn.name, tgt.fn, args)
            m = s.fnmodels.get(tgt.name)
            if m is None:
                for k, v in s.fnmodels.items():
                    if k.endswith('*') and tgt.name.startswith(k[:-1]):
                        m = v
            if m is not None:
                return m(s, fr, ins, st, args)
            s.emit('callback', ins, st, name=tgt.name, args=args)
            return s.callback(st, tgt.name, ins.ty, args)
        if isinstance(tgt, Ptr) and tgt.obj is NULLOBJ:
            s.emit('nullcall', ins, st)
            return None, None
        s.emit('callback', ins, st, name='?' + (tgt.obj.name if isinstance(tgt, Ptr) else ''), args=args)
        return st, (s.fresh('cb', ins.ty) if ins.ty.k != 'void' else None)

    def callback(s, st, name, ty, args):
        from natives import leaves
        """a call through a function pointer: a reader fills the buffer it is given"""
        name = re.sub(r'\(\d+\)', '', str(name))
        oc = s.occurrence(st, name)
        if 'read' in name.rsplit('.', 1)[-1]:
            for i, p in enumerate(args[:1]):
                p = st.simp(p)
                for c, q in leaves(p):
                    if isinstance(q, Ptr) and q.obj is not NULLOBJ and not q.obj.const:
                        # the end of the buffer is inside the address space
                        e = urep(st.simp(add(q.off, s.asint(args[1]))), 64, st) if len(args) > 1 else None
                        s.havoc(st, q.obj, st.simp(q.off), e, (oc, 'buf'))
        if ty.k == 'void':
            return st, None
        return st, s.evval(oc, 'ret', ty)

    def call_named(s, fr, ins, st, name, fn, args):
        nat = s.natives.get(name)
        if nat is None and name.startswith('llvm.'):
            for pre in ('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'llvm.fabs', 'llvm.fmuladd', 'llvm.lifetime', 'llvm.dbg', 'llvm.trap', 'llvm.va_', 'llvm.stack', 'llvm.is.fpclass', 'llvm.round', 'llvm.floor', 'llvm.ceil', 'llvm.rint',
                        'llvm.nearbyint', 'llvm.trunc', 'llvm.maxnum', 'llvm.minnum', 'llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin', 'llvm.abs', 'llvm.bswap', 'llvm.copysign', 'llvm.exp2', 'llvm.pow',
                        'llvm.sqrt', 'llvm.fma', 'llvm.ldexp', 'llvm.expect', 'llvm.objectsize', 'llvm.assume', 'llvm.fshl', 'llvm.fshr', 'llvm.usub.sat'):
                if name.startswith(pre):
                    nat = s.natives.get(pre)
                    break
        s.emit('call', ins, st, name=name, args=args, fn=fn)
        if nat is not None:
            r = nat(s, fr, ins, st, args)
            if r is not NotImplemented:
                return r
        if fn is not None:
            return s.call(fn, args, st, ins)
        s.unknown_calls[name] = s.unknown_calls.get(name, 0) + 1
        if s.vocab is not None and name not in s.vocab:
            # not in the vocabulary of the references: an arbitrary computation
            for a in args:
                if isinstance(a, Ptr) and a.obj is not NULLOBJ and not a.obj.const:
                    s.havoc(st, a.obj)
            return st, s.fresh('foreign', ins.ty) if ins.ty.k != 'void' else None
        return st, s.extern(st, fr.fn.mod, name, ins.ty, args)

    # what library functions write through their pointer arguments
    WRITES = {'decode_bds_d1_ephemeris': (2,), 'decode_glo_ephemeris': (2,), 'decode_ephemeris': (1,), 'decode_gal_ephemeris_safe': (1,),
              'strtol': (1,), 'sid_to_string': (0,)}

    def extern(s, st, mod, name, ty, args):
        oc = s.occurrence(st, name)
        for i in s.WRITES.get(name, ()):
            if i < len(args):
                from natives import leaves
                for c, q in leaves(st.simp(args[i])):
                    if isinstance(q, Ptr) and q.obj is not NULLOBJ and not q.obj.const:
                        whole = not q.off.t and q.off.c == 0 and q.obj.kind == 'alloca'
                        s.havoc(st, q.obj, None if whole else q.off, None, (oc, 'o%d' % i), q.off)
        if name in ('__isoc99_sscanf', 'sscanf'):
            return s.scanned(st, oc, ty, args)
        if name in ('getopt', 'getopt_long'):
            for g, t in (('optarg', ir.PTR), ('optind', ir.ity(32))):
                s.store(st, s.cval(st, mod, ('glob', g), ir.PTR), s.evval(oc, g, t), t.size())
        if name in ('getopt', 'getopt_long'):
            return addc(lin(s.evatom(oc, 'ret', 0, 256)), -1)
        if ty.k == 'void':
            return None
        lins = [a for a in args if isinstance(a, (Lin, C))]
        if len(lins) == len(args) and ty.k in ('int', 'float', 'double'):
            if ty.k == 'int' and ty.n == 1:
                return batom('ext:' + name, *lins)
            isf = ty.k != 'int'
            return lin(atom('ext:' + name, *lins, lo=-INF if isf else 0, hi=INF if isf else (1 << ty.n) - 1, isf=isf, fl=F_LOSSY))
        return s.evval(oc, 'ret', ty)

    def scanned(s, st, oc, ty, args):
        """sscanf: the n-th conversion is stored if at least n were successful"""
        from summary import strinit
        f = args[1] if len(args) > 1 else None
        t = strinit(f.obj) if isinstance(f, Ptr) and not f.off.t and f.off.c == 0 else None
        cv = re.findall(r'%(\*?)(\d*)(hh|h|ll|l|)([a-zA-Z\[])', t.decode('latin1')) if t is not None else []
        cv = [x for x in cv if x[0] != '*']
        r = addc(lin(s.evatom(oc, 'ret', 0, len(cv) + 1)), -1) if t is not None else s.evval(oc, 'ret', ty)
        for i, p in enumerate(args[2:]):
            k = cv[i][2] + cv[i][3] if i < len(cv) else ''
            vt = {'d': ir.ity(32), 'u': ir.ity(32), 'hd': ir.ity(16), 'hu': ir.ity(16), 'hhd': ir.ity(8), 'hhu': ir.ity(8), 'ld': ir.ity(64), 'lu': ir.ity(64), 'lf': ir.DOUBLE, 'f': ir.FLOAT}.get(k)
            p = st.simp(p)
            if not isinstance(p, Ptr) or p.obj is NULLOBJ:
                continue
            if vt is None:
                s.havoc(st, p.obj, p.off, None, (oc, 'v%d' % i), p.off)
                continue
            old = s.chain(st, p.obj)
            s.raw_store(st, p.obj, st.simp(p.off), s.evval(oc, 'v%d' % i, vt), vt.size())
            st.mem[p.obj] = Node('I', (rng(r, i + 1, (1 << 31) - 1), st.mem[p.obj], old), None)
        return r

    # ------------------------------------------------------------ loops
    def run_loop(s, fr, head, st):
        fn = fr.fn
        body = fn.loops[head]
        N = s.trip_estimate(fr, head, body, st)
        if N is not None and N <= UNROLL:
            return s.unroll(fr, head, body, st, N)
        return s.summarise(fr, head, body, st)

    def trip_estimate(s, fr, head, body, st):
        """small constant trip count visible from the header's (or latch's) exit test"""
        fn = fr.fn
        for b in [head] + [x for x in fn.blocks[head].pred if x in body]:
            t = fn.blocks[b].term
            if t is None or t.op != 'condbr':
                continue
            if (t.a[1] in body) == (t.a[2] in body):
                continue
            cv = t.a[0]
            if cv[0] != 'reg':
                continue
            defs = s.defs(fn)
            ci = defs.get(cv[1])
            # follow  (a && b) style phis is not attempted
            if ci is None or ci.op != 'icmp':
                continue
            for x, y in ((ci.a[0], ci.a[1]), (ci.a[1], ci.a[0])):
                ph, plus = s.find_phi(fn, head, x, body)
                if ph is None:
                    continue
                init = st.phis.get(ph.res)
                if not isinstance(init, Lin):
                    continue
                init = st.simp(init)
                if init.t:
                    continue
                bound = s.inv_const(fr, st, y, body, defs)
                if bound is None:
                    continue
                step = None
                for v, pb in ph.a:
                    if pb in body and v[0] == 'reg':
                        d = defs.get(v[1])
                        if d is not None and d.op in ('add', 'sub'):
                            kk = d.a[1]
                            if kk[0] == 'int' and s.find_phi(fn, head, d.a[0], body)[0] is ph:
                                step = kk[1] if d.op == 'add' else -kk[1]
                        elif d is not None and d.op == 'trunc':
                            dd = defs.get(d.a[0][1]) if d.a[0][0] == 'reg' else None
                            if dd is not None and dd.op == 'add' and dd.a[1][0] == 'int' and s.find_phi(fn, head, dd.a[0], body)[0] is ph:
                                step = dd.a[1][1]
                if not step:
                    continue
                n = abs(bound - init.c) // abs(step) + 2
                return n
        return None

    def defs(s, fn):
        d = getattr(fn, '_defs', None)
        if d is None:
            d = {}
            for b in fn.blocks.values():
                for i in b.phis + b.ins:
                    if i.res is not None:
                        d[i.res] = i
            fn._defs = d
        return d

    def find_phi(s, fn, head, v, body, depth=0):
        if v[0] != 'reg' or depth > 4:
            return None, 0
        d = s.defs(fn).get(v[1])
        if d is None:
            return None, 0
        if d.op == 'phi' and d.blk == head:
            return d, 0
        if d.op in ('zext', 'sext', 'trunc'):
            return s.find_phi(fn, head, d.a[0], body, depth + 1)
        if d.op in ('add', 'sub') and d.a[1][0] == 'int':
            return s.find_phi(fn, head, d.a[0], body, depth + 1)
        return None, 0

    def inv_const(s, fr, st, v, body, defs, depth=0):
        if v[0] == 'int':
            return v[1]
        if v[0] == 'reg':
            d = defs.get(v[1])
            if d is not None and d.blk in body:
                if d.op in ('zext', 'sext', 'trunc') and depth < 4:
                    return s.inv_const(fr, st, d.a[0], body, defs, depth + 1)
                return None
            x = fr.regs.get(v[1])
            if isinstance(x, Lin):
                x = st.simp(x)
                if not x.t and not x.isf:
                    return x.c
        return None

    def unroll(s, fr, head, body, st, N):
        rets, exits = [], []
        cur = st
        fallback = None
        for it in range(N + 1):
            if it == N:
                # estimate was wrong (e.g. the exit never fires): summarise the rest
                r2, e2 = s.summarise(fr, head, body, cur)
                return rets + r2, exits + e2
            r, ex, backs = s.region(fr, body, head, [(None, cur)], head)
            rets.extend(r)
            exits.extend(ex)
            if not backs:
                break
            cur = s.merge(backs)
        # combine exits that leave to the same block (keep list small)
        return rets, s.combine(exits)

    def combine(s, exits):
        by = {}
        for dst, st in exits:
            by.setdefault(dst, []).append(st)
        return [(d, s.merge(l)) for d, l in by.items()]

    def summarise(s, fr, head, body, st0):
        fn = fr.fn
        phis = fn.blocks[head].phis
        init = {p.res: st0.phis.get(p.res) for p in phis}
        outer_phis = {k: v for k, v in st0.phis.items() if k not in init}
        uid = nid()
        # pass 1: discover modified memory and the shape of the recurrences
        modified = {}       # (obj, off, size) -> kind
        syms, symx = {}, {}   # obj -> numeric / symbolic (loop-invariant) byte ranges written at symbolic offsets
        n_created = nid()

        def head_state(phiv, cellv, sym, arr, facts, recs=None):
            h = st0.copy()
            h.phis = dict(outer_phis)
            for k, v in phiv.items():
                h.phis[k] = v
            for o in list(sym) + [x for x in symx if x not in sym]:
                if o in arr:
                    continue
                n = s.chain(h, o)
                hu = []
                for lo, hi in symx.get(o, ()):
                    hu.append(nid())
                    n = Node('H', (lo, hi, hu[-1]), n)
                for lo, hi in sym.get(o, ()):
                    hu.append(nid())
                    if lo == -INF and hi == INF:
                        n = Node('H', (None, None, hu[-1]), n)
                    else:
                        n = Node('H', (const(int(lo)) if lo != -INF else None, const(int(hi)) if hi != INF else None, hu[-1]), n)
                if recs is not None:
                    recs[o] = q = Rec()
                    q.q, q.obj, q.huids, q.uid, q.memo, q.keep = q, o, frozenset(hu), uid, {}, []
                    n = Node('Q', q, n)
                h.mem[o] = n
            for o, lay in arr.items():
                n = s.chain(h, o)
                for a in lay:
                    n = Node(a[0], a[1], n)
                h.mem[o] = n
            for (o, off, size), v in cellv.items():
                if not covered(o, off, size):
                    s.raw_store(h, o, const(off), v, size)
            marks = {}
            for o in list(h.mem):
                n = h.mem[o]
                if n.k == 'D' and n.own is not None:
                    n.own = None
                mk = Node('D', {}, n, h.tok)
                h.mem[o] = mk
                marks[o] = mk
            for f in facts:
                h.assume(f, node=False)
            return h, marks

        def covered(o, off, size):
            if o in symx:
                for lo, hi in symx[o]:
                    if st0.iv(lo)[0] < off + size and off < st0.iv(hi)[1]:
                        return True
            return o in syms and any(off < hi and lo < off + size for lo, hi in syms[o])

        def invariant(l):
            return all(a.id < uid for a, _ in l.t)

        def addsym(o, rs):
            """grow the havoced ranges of o; True if they changed"""
            old = syms.get(o, ())
            rs = [r for r in rs if not any(l <= r[0] and r[1] <= h for l, h in old)]
            if not rs:
                if o not in syms and old == ():
                    return False
                return False
            new = sorted(list(old) + rs)
            m = []
            for l, h in new:
                if m and l <= m[-1][1]:
                    m[-1] = (m[-1][0], max(h, m[-1][1]))
                else:
                    m.append((l, h))
            if len(m) > 12:
                m = [(m[0][0], m[-1][1])]
            syms[o] = tuple(m)
            return True

        def body_run(h):
            return s.region(fr, body, head, [(None, h)], head)

        s.quiet += 1
        oldbudget = None
        regs, s.regs = s.regs, 0
        try:
            phi_mu = {}
            for p in phis:
                phi_mu[p.res] = s.mu(p.ty, init[p.res], uid, p.res)
            cells = {}
            FULL = (-INF, INF)
            for rnd in range(8):
                h, marks = head_state(phi_mu, cells, syms, {}, [])
                path0 = h.path
                r, ex, backs = body_run(h)
                if not backs:
                    break
                b = s.merge(backs)
                changed = False
                for o in list(b.mem):
                    if o in fr.objs and o not in st0.mem:
                        continue
                    mk = marks.get(o)
                    if mk is None:
                        if o in st0.mem or o.kind in ('in', 'global'):
                            if o not in st0.mem:
                                # object first touched in the loop
                                if o.const:
                                    continue
                                w = set()
                                sy = s.writes(b.mem[o], None, w, b)
                                if not w and not sy:
                                    continue
                                changed |= addsym(o, list(sy) + [(off, off + size) for off, size, v in w])
                        continue
                    if b.mem[o] is mk and not mk.a:
                        continue
                    w = set()
                    sx = set()
                    sy = s.writes(b.mem[o], mk, w, b, lambda sub_: sx.add((sub_[0], addc(sub_[0], sub_[1]))) if sub_ is not None and rnd < 5 and sub_[0].t and not isinstance(sub_[1], Lin) and invariant(sub_[0]) else 1)
                    if sx - set(symx.get(o, ())):
                        symx[o] = tuple(set(symx.get(o, ())) | sx)
                        changed = True
                    if sy:
                        changed |= addsym(o, [FULL] if rnd >= 5 else list(sy))
                    for off, size, v in w:
                        if (o, off, size) not in cells and not covered(o, off, size):
                            if any(o2 is o and off2 < off + size and off < off2 + s2 for (o2, off2, s2) in cells):
                                changed |= addsym(o, [(off, off + size)])
                                continue
                            ini = s.ld(st0, s.chain(st0, o), o, const(off), size, s.ty_of(v, size), {})
                            cells[(o, off, size)] = s.mu(s.ty_of(v, size), ini, uid, '%s+%d' % (o.name, off))
                            changed = True
                # a cell partly inside a havoced range joins it
                for (o, off, size) in list(cells):
                    if covered(o, off, size):
                        addsym(o, [(off, off + size)])
                        del cells[(o, off, size)]
                if not changed:
                    break
            else:
                for o in list(syms) + list(symx):
                    syms[o] = (FULL,)
                for (o, off, size) in list(cells):
                    if o in syms or o in symx:
                        del cells[(o, off, size)]
            if not backs:
                s.quiet -= 1
                try:
                    # the body never loops back: one iteration only
                    r, ex, bk = s.region(fr, body, head, [(None, st0)], head)
                    if not bk:
                        return r, s.combine(ex)
                finally:
                    s.quiet += 1
                    init_ok = True
                # fallthrough to summary if precise run does loop back
                backs = bk
                b = s.merge(backs)
            # recurrences
            kat = atom('k', uid, lo=0, hi=(1 << 48), fl=0)
            K = lin(kat)
            vars_ = []      # (setter, mu, init, next)
            for p in phis:
                vars_.append((('phi', p.res), phi_mu[p.res], init[p.res], b.phis.get(p.res)))
            for key, mu in cells.items():
                o, off, size = key
                ini = s.ld(st0, s.chain(st0, o), o, const(off), size, s.ty_of(mu, size), {})
                nx = s.ld(b, b.mem[o], o, const(off), size, s.ty_of(mu, size), {})
                vars_.append((('cell', key), mu, ini, nx))
            sol, facts, affine = s.solve(st0, b, vars_, K)

            def no_wrap():
                """no-overflow hypotheses on the counters; they hold at k = 0 and are kept only
                if the loop guard re-establishes them (checked below)"""
                out = []
                for what, mu, ini, nx in vars_:
                    if what in affine and isinstance(mu, Lin) and mu.t and isinstance(sol[what], Lin):
                        w = mu.t[0][0].a[2]
                        kc = sum(k for a, k in sol[what].t if a is kat)
                        if kc == 0 or not isinstance(w, int):
                            continue
                        il, ih = st0.iv(ini)
                        if kc > 0:
                            lim = (1 << w) - 1 if w <= 16 else (1 << (w - 1)) - 1
                            if ih <= lim and il >= -(1 << (w - 1)):
                                out.append(rng(sol[what], None, lim))
                        else:
                            lim = -(1 << (w - 1))
                            if il >= lim:
                                out.append(rng(sol[what], lim, None))
                return [f for f in out if f is not CT and f is not CF]
            hyps = no_wrap()
            for attempt in range(4):
                # pass 2: with affine variables in terms of k; collect symbolic writes and guards
                phiv = {v[0][1]: sol[v[0]] for v in vars_ if v[0][0] == 'phi'}
                cellv = {v[0][1]: sol[v[0]] for v in vars_ if v[0][0] == 'cell'}
                recs = {}
                h, marks = head_state(phiv, cellv, syms, {}, facts + hyps, recs)
                p0 = h.path
                s.loopstack.append(uid)
                s.regs += 1
                try:
                    r, ex, backs2 = body_run(h)
                finally:
                    s.regs -= 1
                    s.loopstack.pop()
                arr = {}
                gf = []
                if not backs2:
                    if hyps:
                        hyps = []
                        continue
                    break
                b2 = s.merge(backs2)
                # verify affine guesses; demote those that fail
                bad = False
                for what, mu, ini, nx in vars_:
                    if what not in affine:
                        continue
                    cur = sol[what]
                    if what[0] == 'phi':
                        n2 = b2.phis.get(what[1])
                    else:
                        o, off, size = what[1]
                        n2 = s.ld(b2, b2.mem[o], o, const(off), size, s.ty_of(mu, size), {})
                    want = s.shift(cur, kat)
                    if not s.same(b2, n2, want):
                        bad = True
                        affine.discard(what)
                if bad:
                    sol, facts, affine = s.solve(st0, b, vars_, K, only=affine)
                    hyps = no_wrap()
                    continue
                gf = s.guard_facts(st0, h, b2, p0, kat, uid)
                if hyps:
                    # inductive step: is every hypothesis implied at the next head?
                    t = st0.copy()
                    try:
                        for f in facts + gf:
                            t.assume(f, node=False)
                        keep = [f for f in hyps if t.evalc(f) is True]
                    except Dead:
                        keep = []
                    if len(keep) != len(hyps):
                        hyps = [f for f in hyps if f in keep]
                        if attempt == 2:
                            hyps = []
                        continue
                for o in list(syms) + [x for x in symx if x not in syms]:
                    mk = marks.get(o)
                    if mk is None or o not in b2.mem:
                        continue
                    lay = s.array_layers(b2, o, mk, kat, uid, covered)
                    if lay is None and not NOFOLD:
                        rec = recs[o]
                        w = set()
                        rs = set(s.writes(b2.mem[o], mk, w, b2))
                        rs |= {(x, x + z) for x, z, v in w}
                        rec.ranges, rec.b = sorted(rs), b2
                        lay = [('S', (rec, K))]
                    if lay is not None:
                        arr[o] = lay
                break
            else:
                hyps, gf, arr, recs = [], [], {}, {}
            facts = facts + hyps + gf
        finally:
            s.quiet -= 1
            s.regs = regs
        s.loopstats[(fn.name, head)] = (len(affine), len(vars_), len(syms), len(arr))
        # final pass
        try:
            h, marks = head_state(phiv, cellv, syms, arr, facts)
        except Dead:
            h, marks = head_state(phiv, cellv, syms, {}, [])
        if arr:
            hc = h.copy()
            for o in arr:
                rec = recs.get(o)
                for hu in rec.huids if rec is not None else ():
                    mm.HVREC[hu] = (s, hc, marks[o].parent, o)
        s.emit('loop', fn.blocks[head].ins[0] if fn.blocks[head].ins else None, h, head=head, k=kat, sol=sol, affine=affine)
        hp = h.path
        s.loopstack.append(uid)
        try:
            r, ex, backs3 = body_run(h)
        finally:
            s.loopstack.pop()
        if not s.quiet or s.regs:
            s.register_loop(uid, kat, vars_, sol, st0, backs3, hp)
        out = []
        for dst, x in ex:
            out.append((dst, x))
        return r, s.combine(out)

    def register_loop(s, uid, kat, vars_, sol, st0, backs, hp):
        """recurrences of a summarised loop: continue condition and init/next of its variables"""
        L = {'k': kat, 'vars': {}, 'back': None, 'up': tuple(s.loopstack)}
        if backs:
            b = s.merge([x.copy() for x in backs])
            L['back'] = s.pathcond(b.path, hp)
            for what, mu, ini, nx in vars_:
                cur = sol[what]
                a = None
                if cur is mu:
                    if isinstance(mu, Lin) and len(mu.t) == 1:
                        a = mu.t[0][0]
                    elif isinstance(mu, C) and mu.op == 'b':
                        a = mu.a[0]
                    elif isinstance(mu, Ptr) and len(mu.off.t) == 1:
                        a = mu.off.t[0][0]
                if a is None:
                    continue
                if what[0] == 'phi':
                    n2 = b.phis.get(what[1])
                else:
                    o, off, size = what[1]
                    if o not in b.mem:
                        continue
                    n2 = s.ld(b, b.mem[o], o, const(off), size, s.ty_of(mu, size), {})
                if isinstance(mu, Ptr):
                    if not (isinstance(n2, Ptr) and isinstance(ini, Ptr) and n2.obj is mu.obj is ini.obj):
                        continue
                    n2, ini = n2.off, ini.off
                L['vars'][a.id] = (ini, n2)
        LOOPS[uid] = L

    def same(s, st, a, b):
        if a is b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = st.simp(sub(a, b)) if a.isf == b.isf else None
            return d is not None and not d.t and d.c == 0
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return s.same(st, a.off, b.off)
        return False

    def shift(s, v, kat):
        m = {kat: addc(lin(kat), 1)}
        return subst(v, m, {})

    def mu(s, ty, init, uid, name):
        if isinstance(init, FnPtr):
            return init
        if isinstance(init, Ptr) or (isinstance(init, PIte)):
            o = init.obj if isinstance(init, Ptr) else None
            if o is not None and o is not NULLOBJ:
                return ptr(o, lin(atom('mu', uid, name, 'p', lo=-(1 << 40), hi=1 << 40, fl=F_LOSSY)), init.sub)
            return ptr(Obj('?mu', None, 'in'))
        if ty.k in ('float', 'double'):
            return lin(atom('mu', uid, name, 'f', isf=True, fl=F_LOSSY))
        if ty.k == 'int' and ty.n == 1:
            return batom('mub', uid, name)
        if ty.k == 'ptr':
            return ptr(Obj('?mu', None, 'in'))
        if ty.k != 'int':
            return s.fresh('mu', ty)
        return lin(atom('mu', uid, name, ty.n, lo=-(1 << 70), hi=(1 << 70), fl=F_LOSSY))

    def solve(s, st0, b, vars_, K, only=None):
        """closed forms / invariants of the loop-carried variables"""
        sol, facts, affine = {}, [rng(K, 0, None)], set()
        mus = {}
        for what, mu, ini, nx in vars_:
            if isinstance(mu, Lin) and mu.t and not mu.isf:
                mus[mu.t[0][0]] = None
        pend = []
        for what, mu, ini, nx in vars_:
            sol[what] = mu
            if s.same(b, nx, mu) or nx is ini and isinstance(mu, FnPtr):
                if ini is not None and type(ini) is type(mu) or isinstance(ini, (Lin,)):
                    sol[what] = ini
                    affine.add(what)
                    continue
            if nx is None or ini is None:
                continue
            if isinstance(mu, Lin) and not mu.isf and isinstance(nx, Lin) and isinstance(ini, Lin) and not ini.isf:
                w = mu.t[0][0].a[2]
                d = b.simp(sub(modstrip(nx, w) if isinstance(w, int) else nx, mu))
                if not d.t and (only is None or what in only):
                    sol[what] = add(ini, scale(K, d.c))
                    affine.add(what)
                    continue
                pend.append((what, mu, ini, nx, d))
            elif isinstance(mu, Ptr) and isinstance(nx, Ptr) and isinstance(ini, Ptr) and nx.obj is mu.obj is ini.obj:
                d = b.simp(sub(nx.off, mu.off))
                if not d.t and (only is None or what in only):
                    sol[what] = ptr(ini.obj, add(ini.off, scale(K, d.c)), ini.sub)
                    affine.add(what)
                    continue
                pend.append((what, mu.off, ini.off, nx.off, d))
            elif isinstance(mu, C) and isinstance(ini, C) and isinstance(nx, C):
                pass
        # invariants relative to affine ones: next differs by loop-invariant/affine amounts is left to intervals
        if pend:
            S = {}
            for what, mu, ini, nx, d in pend:
                S[what] = st0.iv(ini)
            for rnd in range(5):
                t = b.copy()
                t.ivc = {}
                for what, mu, ini, nx, d in pend:
                    t.env[mu] = S[what]
                t.sc, t.ivc = {}, {}
                grown = False
                for what, mu, ini, nx, d in pend:
                    a = mu.t[0][0]
                    w = a.a[2] if isinstance(a.a[2], int) else 64
                    try:
                        l, h = t.iv(nx)
                    except Exception:
                        l, h = -INF, INF
                    ol, oh = S[what]
                    nl, nh = min(l, ol), max(h, oh)
                    if (nl, nh) != (ol, oh):
                        grown = True
                        if rnd >= 2:
                            if nl < ol:
                                nl = 0 if (ol >= 0 and nl >= 0) else -INF
                            if nh > oh:
                                nh = INF
                        S[what] = (nl, nh)
                if not grown:
                    break
            for what, mu, ini, nx, d in pend:
                lo, hi = S[what]
                a = mu.t[0][0]
                w = a.a[2] if isinstance(a.a[2], int) else 64
                if lo == -INF or hi == INF:
                    # keep one-sided information only through the k-relation
                    pass
                facts.append(rng(mu, lo if lo != -INF else None, hi if hi != INF else None))
                # bounded increments relative to k
                t = b.copy()
                t.env[mu] = (lo, hi)
                dl, dh = t.iv(d)
                if -(1 << 28) < dl and isinstance(ini, Lin):
                    facts.append(rng(sub(sub(mu, ini), scale(K, int(dl))), 0, None))
                if dh < 1 << 28 and isinstance(ini, Lin):
                    facts.append(rng(sub(sub(mu, ini), scale(K, int(dh))), None, 0))
        return sol, [f for f in facts if f is not CT and f is not CF], affine

    def guard_facts(s, st0, h, b, p0, kat, uid):
        """facts valid at the loop head, derived from what holds on every back edge"""
        out = []
        K = lin(kat)
        conds = []
        p = b.path
        stop = p0
        while p is not None and p is not stop:
            conds.append(p.c)
            p = p.p
        leaves = []
        for c in conds:
            if c.op == 'and':
                leaves.extend(c.a[0])
            else:
                leaves.append(c)
        hid = kat.id
        for c in leaves:
            if c.op not in ('rng', 'ne'):
                continue
            L = c.a[0]
            ck = 0
            ok = True
            for a, k in L.t:
                if a is kat:
                    ck = k
                elif a.id > hid or depends(a, lambda x: x is kat or (x.op in ('mu', 'mub') and x.a[0] == uid), {}):
                    ok = False
                    break
            if not ok or ck == 0:
                continue
            rest = add(L, K, -ck)      # L = ck*k + rest, loop-invariant rest
            prev = addc(L, -ck)        # value in the previous iteration
            if c.op == 'ne':
                if abs(ck) != 1:
                    continue
                v = c.a[1]
                # L moves by +-1 from rest and never equals v while looping
                if ck > 0 and st0.iv(rest)[1] <= v or st0.evalc(rng(addc(rest, -v), None, 0)) is True:
                    out.append(rng(L, None, v))
                elif ck < 0 and st0.evalc(rng(addc(rest, -v), 0, None)) is True:
                    out.append(rng(L, v, None))
                continue
            lo, hi = c.a[1], c.a[2]
            # for k>=1: lo <= prev <= hi
            if ck > 0 and hi != INF:
                # at k = 0 need rest <= hi + ck
                if st0.evalc(rng(rest, None, hi + ck)) is True:
                    out.append(rng(L, None, hi + ck))
                else:
                    out.append(cor(rng(K, 0, 0), rng(L, None, hi + ck)))
            if ck < 0 and lo != -INF:
                if st0.evalc(rng(rest, lo + ck, None)) is True:
                    out.append(rng(L, lo + ck, None))
                else:
                    out.append(cor(rng(K, 0, 0), rng(L, lo + ck, None)))
        return [f for f in out if f is not CT and f is not CF]

    def writes(s, node, stop, out, st=None, symb=None):
        """collect constant-offset writes above `stop` into out; returns the byte ranges of
        the others: a set of (lo, hi), hi may be INF"""
        sym = set()
        seen = set()
        todo = [node]

        def ivl(x, up):
            if x is None:
                return INF if up else -INF
            r = st.iv(x) if st is not None else static_iv(x)
            return r[1] if up else r[0]
        while todo:
            n = todo.pop()
            if n is None or n is stop and not n.a or n.id in seen:
                continue
            seen.add(n.id)
            if n is stop:
                for off, (size, v) in n.a.items():
                    out.add((off, size, v)) if _hashable(v) else out.add((off, size, None))
                continue
            k = n.k
            if k == 'D':
                # a copy of the stop dict counts as its writes as well
                for off, (size, v) in n.a.items():
                    out.add((off, size, v))
                if stop is not None and n.parent is stop.parent:
                    continue
                todo.append(n.parent)
            elif k == 'I':
                todo.append(n.a[1])
                todo.append(n.a[2])
            elif k == 'B':
                if stop is not None:
                    sym.add((-INF, INF))    # whole object rewritten
            elif k == 'W':
                if symb is None or symb(n.a[4]):
                    sym.add(n.a[3])
                todo.append(n.parent)
            else:
                if k == 'A':
                    sym.add(n.a[6])
                elif k == 'S':
                    sym.update(n.a[0].ranges)
                elif k == 'Q':
                    pass
                else:
                    lo, hi = ivl(n.a[0], False), ivl(n.a[1], True)
                    if k == 'H' and n.a[2] in s.reach:
                        l2, h2 = s.reach[n.a[2]]
                        lo, hi = max(lo, l2), min(hi, h2)
                    if lo < hi:
                        sym.add((lo, hi))
                todo.append(n.parent)
        return sym

    def array_layers(s, b, o, mk, kat, uid, covered):
        """turn the per-iteration writes of object o (above marker mk) into array layers
        for all j < k; None if they have another shape"""
        lay = []
        n = b.mem[o]
        items = []
        cond = CT
        ok = True

        def walk(n, cond):
            nonlocal ok
            while ok:
                if n is mk or (n.k == 'D' and n.parent is mk.parent):
                    for off, (size, v) in n.a.items():
                        if covered(o, off, size):
                            ok = False     # constant cell inside a symbolically written range
                    return
                if n.k == 'D':
                    if any(covered(o, off, e[0]) for off, e in n.a.items()):
                        ok = False
                    n = n.parent
                elif n.k == 'W':
                    items.append((n.a[0], n.a[1], n.a[2], cond, n.a[3]))
                    n = n.parent
                elif n.k == 'I':
                    c, x, y = n.a
                    # common form: writes on one side only
                    base = s.join_base(x, y, mk)
                    if base is None:
                        ok = False
                        return
                    walk_to(x, base, cand(cond, c))
                    walk_to(y, base, cand(cond, cnot(c)))
                    n = base
                elif n.k == 'F' and n.a[2] is not None:
                    items.append(('F', n.a, cond))
                    n = n.parent
                else:
                    ok = False
                    return

        def walk_to(n, base, cond):
            nonlocal ok
            while ok and n is not base:
                if n.k == 'D':
                    if any(covered(o, off, e[0]) for off, e in n.a.items()):
                        ok = False
                    n = n.parent
                elif n.k == 'W':
                    items.append((n.a[0], n.a[1], n.a[2], cond, n.a[3]))
                    n = n.parent
                elif n.k == 'I':
                    c, x, y = n.a
                    b2 = s.join_base(x, y, mk)
                    if b2 is None:
                        ok = False
                        return
                    walk_to(x, b2, cand(cond, c))
                    walk_to(y, b2, cand(cond, cnot(c)))
                    n = b2
                else:
                    ok = False
        try:
            walk(n, CT)
        except AttributeError:
            return None
        if not ok or not items or len(items) > 400:
            return None
        K = lin(kat)

        def variant(a):
            return a.id > kat.id and a.op in VARIANT or a.op in ('mu', 'mub') and a.a[0] == uid
        out = []
        vm, wraps = {}, {}

        def wrap(v):
            """values that are not functions of the counter are taken from the iteration"""
            if isinstance(v, C):
                if not depends(v, variant, vm):
                    return v
                x = b2i(v)
                return rng(lin(atom('atv', uid, K, x, lo=0, hi=1)), 1, 1)
            if isinstance(v, Lin):
                if not depends(v, variant, vm):
                    return v
                l, h = b.iv(v)
                return lin(atom('atv', uid, K, v, lo=l, hi=h, isf=v.isf))
            if isinstance(v, (Ptr, PIte)) and depends(v, variant, vm):
                return False
            return v
        import math
        for i, x in enumerate(items):
            if x[0] == 'F':
                return None
            for y in items[:i]:
                # writes of different iterations must not overlap
                d = sub(x[0], y[0])
                if not d.t and d.c == 0 and x[1] == y[1]:
                    continue
                g = 0
                for _, kk in add(x[0], K, 0).t + d.t:
                    g = math.gcd(g, kk)
                r = d.c % g if g else 0
                if not (g and r >= y[1] and r + x[1] <= g):
                    return None
        for it in items[::-1]:
            off, size, v, c, rg = it
            v, c = wrap(v), wrap(c)
            if v is False:
                return None
            ck = 0
            for a, k in off.t:
                if a is kat:
                    ck = k
                elif a.id > kat.id and depends(a, lambda x: x.id > kat.id and x.op in ('fr', 'hv', 'k', 'mu'), {}):
                    return None
            if ck < size:
                return None
            if depends(add(off, K, -ck), lambda x: x is kat, {}):
                return None
            if csize(c) > 20:
                return None
            out.append(('A', (kat, K, off, size, v, c, rg)))
        # 'A' layers use a bound variable distinct from the live k
        res = []
        jk = atom('kb', nid(), lo=0, hi=1 << 48, fl=0)
        m, memo = {kat: lin(jk)}, {}

        def toj(v):
            # the body of a wrapped value keeps its own counter
            hold = {}
            for a in collect(v, lambda a: a.op == 'atv' and a.a[0] == uid):
                hold[a] = lin(atom('atv', uid, lin(jk), a.a[2], lo=a.lo, hi=a.hi, isf=a.isf))
            if hold:
                mm2 = dict(m)
                mm2.update(hold)
                return subst(v, mm2, {})
            return subst(v, m, memo)
        for _, (kk, n_, off, size, v, c, rg) in out:
            res.append(('A', (jk, K, subst(off, m, memo), size, toj(v) if isinstance(v, (Lin, Ptr, PIte, C)) else v, toj(c), rg)))
        return res

    def join_base(s, x, y, mk):
        anc = set()
        n = x
        while n is not None:
            anc.add(n.id)
            if n is mk or n.k == 'B':
                break
            if n.k == 'I':
                n = s.join_base(n.a[1], n.a[2], mk)
            else:
                n = n.parent
        n = y
        while n is not None:
            if n.id in anc:
                return n
            if n.k == 'I':
                n = s.join_base(n.a[1], n.a[2], mk)
            elif n.k == 'B':
                return None
            else:
                n = n.parent
        return None


OPAQUE_LD = ('fr', 'undefb')


def head_content(a):
    """what a read at the head of the current iteration finds (a: atom hv of a havoced object)"""
    it, h, node, o = mm.HVREC[a.a[0]]
    off, size = a.a[1], a.a[2]
    ty = (ir.DOUBLE if size == 8 else ir.FLOAT) if a.isf else ir.ity(8 * size)
    try:
        v = it.ld(h, node, o, off, size, ty, {})
    except Dead:
        return None
    if isinstance(v, C):
        v = b2i(v)
    if not isinstance(v, Lin) or v.isf != a.isf:
        return None
    return v if a.isf else mk_mod(v, 1 << (8 * size), h)


class Rec:
    """per-iteration writes of one object by one loop"""
    __slots__ = ('q', 'obj', 'huids', 'uid', 'memo', 'keep', 'ranges', 'b')


VARIANT = ('mu', 'mub', 'k', 'ev', 'hv', 'fr', 'frb', 'undefb', 'sy', 'sx', 'io', 'obits', 'snp', 'cmp', 'strlen')
NOFOLD = False


def modstrip(l, w):
    """a simpler term congruent to l modulo 2^w"""
    while True:
        for a, k in l.t:
            if a.op == 'mod' and not a.isf and isinstance(a.a[1], int) and (k * a.a[1]) % (1 << w) == 0:
                l = add(add(l, lin(a), -k), a.a[0], k)
                break
        else:
            return l


def collect(x, pred):
    """outermost atoms of a term that satisfy pred"""
    out, seen, todo = [], set(), [x]
    while todo:
        y = todo.pop()
        if isinstance(y, (frozenset, tuple)):
            todo.extend(y)
            continue
        if isinstance(y, (Ptr,)):
            todo.append(y.off)
            continue
        if isinstance(y, PIte):
            todo += [y.c, y.a, y.b]
            continue
        if not isinstance(y, (Lin, C, T)) or id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, Lin):
            todo.extend(a for a, _ in y.t)
        elif isinstance(y, T):
            if pred(y):
                out.append(y)
            else:
                todo.extend(y.a)
        else:
            todo.extend(y.a)
    return out


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False
