"""Replace selected callees by uninterpreted functions: the callee is checked on its own
(its summary against its own reference), the caller is checked relative to it."""
from terms import *
from mem import *
import mem as mm
from ops import *
import ir
import driver
import modref


def _scal(s, st, args):
    out = []
    for a in args:
        if isinstance(a, (Lin, C)):
            out.append(a)
        elif isinstance(a, Ptr):
            out.append(a.off)
    return tuple(out)


def _labels(args):
    import summary
    r = []
    for a in args:
        if isinstance(a, Ptr):
            r.append(summary.olabel(a.obj) if a.obj.kind == 'in' or a.obj.label else 'local')
        elif isinstance(a, (FnPtr, PIte)):
            r.append('?')
    return '/'.join(r)


def _rng(ty, di):
    if ty.k != 'int':
        return -INF, INF
    w = ty.n
    if di is not None and di[1].get('encoding') in ('DW_ATE_signed', 'DW_ATE_signed_char') or di is None:
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if di is not None else (0, (1 << w) - 1)
    return 0, (1 << w) - 1


def ret_di(prog, fn):
    sp = fn.mod.md(fn.dbg) if fn.dbg is not None else None
    if not sp:
        return None
    ty = fn.mod.mdref(sp[1].get('type'))
    l = fn.mod.mdref(ty[1].get('types')) if ty else None
    return prog.ditype(fn.mod, l[1][0]) if l and l[1] and l[1][0] != 'null' else None


def is_const_ptr(fn, i):
    sp = fn.mod.md(fn.dbg) if fn.dbg is not None else None
    if not sp:
        return False
    ty = fn.mod.mdref(sp[1].get('type'))
    l = fn.mod.mdref(ty[1].get('types')) if ty else None
    if not l or i + 1 >= len(l[1]):
        return False
    n = fn.mod.mdref(l[1][i + 1])
    while n and n[0] == 'DIDerivedType' and n[1].get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_restrict_type'):
        n = fn.mod.mdref(n[1].get('baseType'))
    if n and n[0] == 'DIDerivedType' and n[1].get('tag') == 'DW_TAG_pointer_type':
        b = fn.mod.mdref(n[1].get('baseType'))
        while b and b[0] == 'DIDerivedType' and b[1].get('tag') == 'DW_TAG_typedef':
            b = fn.mod.mdref(b[1].get('baseType'))
        return bool(b and b[0] == 'DIDerivedType' and b[1].get('tag') == 'DW_TAG_const_type')
    return False


def extent(s, fn, i, q):
    """the bytes a callee may write through pointer q (its pointee when that is one structure)"""
    if q.off.t:
        return None, None
    dp = driver.di_params(s.p, fn) if fn else []
    d = dp[i] if i < len(dp) else None
    if d is None or d[1].get('tag') != 'DW_TAG_pointer_type':
        return None, None
    el = s.p.ditype(fn.mod, d[1].get('baseType'))
    if el is None or el[0] != 'DICompositeType' or not el[1].get('size'):
        return (q.off, None) if q.off.c else (None, None)
    sz = int(el[1]['size']) // 8
    lay = s.layout(q.obj)
    f = lay.get(int(q.off.c)) if lay else None
    if f is None or '[' in f[0]:
        return None, None
    return q.off, addc(q.off, sz)


def cut(name, pure=False, keep=(), rrange=None, modset=None):
    """pure: result (and outputs) are a function of the scalar arguments and the identity of
    the pointed-to inputs.  keep: indices of pointer arguments left unmodified"""

    def f(s, fr, ins, st, a):
        fn = s.p.func(fr.fn.mod, name) or s.p.find(name)
        oc = s.occurrence(st, name)
        rty = ins.ty
        rv = None
        if pure:
            args = _scal(s, st, [st.simp(x) if isinstance(x, (Lin, C)) else x for x in a])
            lab = _labels(a)
        if rty.k != 'void':
            lo, hi = rrange or _rng(rty, ret_di(s.p, fn) if fn else None)
            if rty.k == 'ptr':
                rv = s.evval(oc, 'ret', rty)
            elif rty.k == 'int' and rty.n == 1:
                rv = batom('uf', name, lab, *args) if pure else batom('ev', oc[0], oc[1], oc[2], 'ret')
            elif pure:
                rv = lin(atom('uf', name, lab, *args, lo=lo, hi=hi, isf=rty.k != 'int', fl=F_IN))
            else:
                rv = lin(s.evatom(oc, 'ret', lo, hi, rty.k != 'int'))
        for i, p in enumerate(a):
            rs = (modset[i] if i < len(modset) else None) if modset is not None else modref.mods(s.p, fn, i) if fn is not None and fn.blocks and i < len(fn.params) else None
            if rs is not None and not rs or i in keep or fn is not None and is_const_ptr(fn, i):
                continue
            for c, q in leaves(p) if isinstance(p, PIte) else ((CT, p),):
                if not isinstance(q, Ptr) or q.obj is NULLOBJ or q.obj.const:
                    continue
                o = q.obj
                if pure and not q.off.t:
                    d = driver.di_params(s.p, fn)[i]
                    el = s.p.ditype(fn.mod, d[1].get('baseType')) if d else None
                    fs = s.di_layout(fn.mod, el) if el else {}
                    for off, fl_ in sorted(fs.items()):
                        isf = fl_[3] == 'DW_ATE_float'
                        sg = 'signed' in str(fl_[3]) and 'unsigned' not in str(fl_[3])
                        w = 8 * fl_[2]
                        v = lin(atom('uf', name + '.' + str(fl_[0]), lab, *args, lo=-INF if isf else -(1 << (w - 1)) if sg else 0, hi=INF if isf else (1 << (w - 1)) - 1 if sg else 1 if fl_[3] == 'DW_ATE_boolean' else (1 << w) - 1, isf=isf, fl=F_IN))
                        s.raw_store(st, o, addc(q.off, off), v, fl_[2])
                    continue
                if not q.off.t and q.off.c == 0 and o.kind != 'in':
                    o2 = Obj('%s#%d.%d' % (name, oc[1], i), o.size, 'in', o.di, isbytes=o.bytes)
                    if not oc[2]:
                        o2.label = o2.name
                    o2.lay = o.lay
                    st.mem[o] = Node('D', {}, Node('B', ('in', o2), None), st.tok)
                else:
                    if rs is None:
                        lo, hi = extent(s, fn, i, q)
                        s.havoc(st, o, lo, hi, (oc, i), lo)
                    else:
                        for lo, hi in rs:
                            s.havoc(st, o, addc(q.off, lo), addc(q.off, hi) if hi is not None else None, (oc, i), q.off)
        return st, rv
    return f
