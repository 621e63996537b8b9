"""Entry-point set-up: program loading and symbolic arguments."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, ir
from terms import *
import terms as tm
from mem import *
from ops import *
from absint import Interp, Budget
import natives

_prog = {}


def program():
    if 'p' not in _prog:
        models = [os.path.join(build.VERIF, 'stubs/models', f) for f in sorted(os.listdir(os.path.join(build.VERIF, 'stubs/models'))) if f.endswith('.c')]
        lls, out = build.build(build.sources() + models)
        _prog['p'] = ir.Program(lls)
        _prog['p'].models = set(os.path.basename(m) for m in models)
        import shutil
        shutil.rmtree(out, ignore_errors=True)
    return _prog['p']


def di_params(prog, fn):
    """DI types of the parameters (list of DI nodes)"""
    sp = fn.mod.md(fn.dbg) if fn.dbg is not None else None
    if not sp:
        return []
    ty = fn.mod.mdref(sp[1].get('type'))
    l = fn.mod.mdref(ty[1].get('types')) if ty else None
    if not l:
        return []
    return [prog.ditype(fn.mod, x) for x in l[1][1:]]


def sym_args(prog, it, fn, st, sizes=None, names=None):
    """symbolic arguments: pointers to input objects sized by their pointee type;
    sizes: {param index: byte size or Lin or None}"""
    sizes = sizes or {}
    out = []
    dts = di_params(prog, fn)
    for i, (ty, nm) in enumerate(fn.params):
        d = dts[i] if i < len(dts) else None
        if ty.k == 'ptr':
            el, size, isb = None, None, False
            if d is not None and d[0] == 'DIDerivedType' and d[1].get('tag') == 'DW_TAG_pointer_type':
                el = prog.ditype(fn.mod, d[1].get('baseType'))
            if el is not None and el[0] == 'DISubroutineType':
                out.append(fnptr('*' + nm))
                continue
            if el is not None:
                if el[0] == 'DIBasicType' and el[1].get('size') == '8':
                    isb = True
                elif el[1].get('size'):
                    size = int(el[1]['size']) // 8
            if i in sizes:
                size = sizes[i]
            o = Obj(nm, size, 'in', (fn.mod, el) if el else None, isbytes=isb)
            o.tag = 'nonnull'
            o.label = 'a%d' % i
            st.mem[o] = Node('D', {}, Node('B', ('in', o), None), st.tok)
            out.append(ptr(o))
        elif ty.k == 'int':
            w = ty.n
            lo, hi = 0, (1 << w) - 1
            if d is not None and d[1].get('encoding') in ('DW_ATE_signed', 'DW_ATE_signed_char'):
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if w == 1:
                out.append(batom('param', 'a%d' % i))
            else:
                out.append(lin(atom('param', 'a%d' % i, fn.name, lo=lo, hi=hi, fl=F_IN)))
        elif ty.k in ('float', 'double'):
            out.append(lin(atom('param', 'a%d' % i, fn.name, isf=True, fl=F_IN)))
        else:
            out.append(it.fresh('arg', ty))
    return out


def interp(prog, **kw):
    return Interp(prog, natives.N, **kw)


def run(fname, sizes=None, listeners=(), budget=3000000, setup=None, deadline=None):
    prog = program()
    fn = prog.find(fname)
    if fn is None:
        raise KeyError(fname)
    it = interp(prog, budget=budget)
    it.deadline = deadline
    st = St()
    args = sym_args(prog, it, fn, st, sizes)
    if setup:
        args = setup(it, st, fn, args) or args
    it.listeners = list(listeners)
    st, rv = it.call(fn, args, st)
    return it, st, rv, args


def set_cell(it, st, p, off, size, v):
    it.raw_store(st, p.obj, addc(p.off, off), v, size)


def bitstream_setup(idx=0, maxbits=8 * 1023):
    def f(it, st, fn, args):
        p = args[idx]
        o = Obj('payload', None, 'in', None, isbytes=True)
        o.tag = 'nonnull'
        o.label = 'payload'
        st.mem[o] = Node('D', {}, Node('B', ('in', o), None), st.tok)
        ln = lin(atom('param', 'nbits', fn.name, lo=0, hi=maxbits, fl=F_IN))
        o.size = mk_fdiv(addc(ln, 7), 8)
        set_cell(it, st, p, 0, 8, ptr(o))
        set_cell(it, st, p, 8, 4, ln)
        set_cell(it, st, p, 12, 4, ZERO)
        it.payload = o
        it.nbits = ln
        return args
    return f


def ret_state(st, rv, val=0):
    """state restricted to the executions returning val"""
    s2 = st.copy()
    if isinstance(rv, C):
        s2.assume(rv if val else cnot(rv))
    else:
        s2.assume(rng(rv, val, val))
    return s2


def field(it, st, p, off, size, enc):
    ty = ir.PTR if enc == 'ptr' else (ir.DOUBLE if size == 8 else ir.FLOAT) if enc == 'DW_ATE_float' else ir.ity(size * 8)
    return st.simp(it.load(st, ptr(p.obj, addc(p.off, off)), size, ty))


def fields(it, st, p, upto=None):
    """[(name, off, size, value)] of the scalar fields of the object p points to"""
    out = []
    for off, f in sorted(it.layout(p.obj).items()):
        if f[2] in (1, 2, 4, 8) and f[3] != 'bigarray':
            out.append((f[0], off, f[2], field(it, st, p, off, f[2], f[3])))
    return out
