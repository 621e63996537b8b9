"""Canonical summary of one entry point: outputs and ordered observable events."""
import hashlib, re, sys, time
from driver import *
import driver
from terms import *
from mem import *
import mem as mm
import summary
import cuts as cutsmod
from ops import urep, srep
from summary import Dumper, Sum, pathconds, olabel, Ref

sys.setrecursionlimit(100000)


def is_union(o):
    n = o.di[1] if o.di is not None else None
    return n is not None and n[0] == 'DICompositeType' and n[1].get('tag') == 'DW_TAG_union_type'


def firsts(fs):
    r = {}
    for off, f in fs:
        r.setdefault((off, f[2]), (off, f))
    return list(r.values())


def pick_fields(lay, limit=600, alts=()):
    """leaf fields of a layout; large arrays are sampled at their ends when the total is large
    (alts: the leaves of all members of unions)"""
    fs = [(off, f) for off, f in sorted(lay.items()) if f[2] in (1, 2, 4, 8) and f[3] != 'bigarray']
    if len(fs) <= limit:
        got = set((off, f[2]) for off, f in fs)
        return fs + [x for x in firsts(alts) if (x[0], x[1][2]) not in got]
    fs = sorted(alts, key=lambda x: x[0]) or fs
    import re
    idx = {}
    for off, f in fs:
        for m in re.finditer(r'([^\[\]]*(?:\[\d+\][^\[\]]*)*?)\[(\d+)\]', f[0]):
            pass
    mx = {}
    for off, f in fs:
        parts = re.split(r'\[(\d+)\]', f[0])
        for d in range(1, len(parts), 2):
            key = re.sub(r'\[\d+\]', '[]', ''.join(p if i % 2 == 0 else '[%s]' % p for i, p in enumerate(parts[:d])))
            mx[key] = max(mx.get(key, 0), int(parts[d]))
    out = []
    for off, f in fs:
        parts = re.split(r'\[(\d+)\]', f[0])
        ok = True
        for d in range(1, len(parts), 2):
            key = re.sub(r'\[\d+\]', '[]', ''.join(p if i % 2 == 0 else '[%s]' % p for i, p in enumerate(parts[:d])))
            m = mx[key]
            i = int(parts[d])
            if m > 8 and i not in (0, 1, 2, m):
                ok = False
        if ok:
            out.append((off, f))
    return firsts(out)[:4 * limit]


def norm(st, v, w, signed):
    """the representative of an integer that its type denotes"""
    if isinstance(v, Lin) and not v.isf and w in (8, 16, 32, 64):
        return (srep if signed else urep)(v, w, st)
    return v


def signed_enc(enc):
    return 'signed' in str(enc) and 'unsigned' not in str(enc)


def field(it, st, p, off, size, enc):
    v = driver.field(it, st, p, off, size, enc)
    return v if enc in ('ptr', 'DW_ATE_float') else norm(st, v, 8 * size, signed_enc(enc))


def disign(prog, mod, d):
    """signedness of a scalar type of debug information (None: not an integer)"""
    t = prog.ditype(mod, d) if isinstance(d, str) else d
    if t is None or t[0] == 'DICompositeType':
        return False if t is not None and t[1].get('tag') == 'DW_TAG_enumeration_type' else None
    return signed_enc(t[1].get('encoding'))


_enums = {}


def enumerators(mod):
    """{value: [enumerator names]} of the SBP message types"""
    r = _enums.get(mod.path)
    if r is None:
        r = _enums[mod.path] = {}
        for raw in mod.meta_raw.values():
            if 'DIEnumerator(' in raw:
                n, v = re.search(r'name: "(\w+)"', raw), re.search(r'value: (-?\d+)', raw)
                if n and v and n.group(1).startswith('SbpMsg'):
                    r.setdefault(int(v.group(1)), []).append(n.group(1))
    return r


class Extract:
    """collects events during a run"""
    CALLS = ()

    def __init__(s, watch=(), budget_events=3000):
        s.ev = []
        s.watch = set(watch)
        s.acc = {}
        s.aborts = {}
        s.loops = []
        s.it = None
        s.max = budget_events
        s.dm = Dumper()
        s.undefbr = {}
        s.trunc = False

    def site(s, e):
        try:
            f, l = e.ins.fn.mod.loc(e.ins.dbg)
            return '%s:%s' % (build.os.path.relpath(f, build.REPO) if f.startswith('/') else f, l), e.ins.fn.name
        except Exception:
            return '?', '?'

    def __call__(s, e):
        k = e.kind
        if k == 'bitset':
            d = e.d
            s.add(e, 'bitset', olabel(d['ptr'].obj) if isinstance(d['ptr'], Ptr) else '?',
                  [add(scale(d['ptr'].off, 8), d['pos']) if isinstance(d['ptr'], Ptr) else d['pos'], d['len'], d['val']])
        elif k == 'callback':
            s.add(e, 'callback', re.sub(r'\(\d+\)', '', str(e.d['name'])), e.d['args'], True)
        elif k == 'call':
            if e.d['name'] in s.watch or e.d['fn'] is None and e.d['name'] not in natives.N and not e.d['name'].startswith('llvm.') and (s.it.vocab is None or e.d['name'] in s.it.vocab):
                s.add(e, 'call', e.d['name'], e.d['args'], True)
        elif k == 'io':
            s.add(e, 'io', e.d['name'], e.d['args'], True)
        elif k == 'fifo':
            s.add(e, 'io', e.d['name'], [e.d['n']] + ([e.d['src']] if 'src' in e.d else []), True)
        elif k == 'printf':
            s.add(e, 'printf', '', [a for a in e.d['args']], True)
        elif k == 'abort':
            site = s.site(e)
            s.aborts.setdefault(site, e.st.path)
            s.add(e, 'abort', '', [])
        elif k == 'loop':
            s.loops.append((e.d['k'].id, len(e.d['affine'])))
        elif k == 'nullcall':
            s.add(e, 'nullcall', '', [])

    def strlit(s, a):
        if isinstance(a, Ptr) and not a.off.t:
            t = summary.strinit(a.obj)
            if t is not None and 0 <= a.off.c < len(t):
                return t[int(a.off.c):].split(b'\0')[0].decode('latin1')
        return None

    def add(s, e, kind, name, args, deep=False):
        if len(s.ev) >= s.max:
            s.trunc = True
            return
        if kind in ('call', 'callback', 'io', 'printf') and e.ins.op in ('call', 'invoke') and len(e.ins.a) >= len(args):
            fn = e.d.get('fn')
            dp = di_params(s.it.p, fn) if fn is not None else []
            args = [norm(e.st, a, e.ins.a[i][0].n, kind == 'printf' or i < len(dp) and bool(disign(s.it.p, fn.mod, dp[i])))
                    if isinstance(a, Lin) and e.ins.a[i][0].k == 'int' and e.d['args'][i] is a else a for i, a in enumerate(args)] if 'args' in e.d else args
        cont = []
        if deep:
            ints = [int(a.c) for a in args if isinstance(a, Lin) and not a.isf and not a.t]
            for i, a in enumerate(args):
                if kind == 'printf' and i == 0:
                    continue    # the destination is only written
                if isinstance(a, Ptr) and a.obj is not NULLOBJ and not a.obj.const and a.obj.kind != 'global':
                    cont += s.content(e.st, a, i, ints)
        s.ev.append((kind, name, pathconds(e.st.path), args, cont, s.site(e), tuple(s.it.loopstack)))

    def member(s, o, ints):
        """leaves of the member of a tagged union that another argument selects (enumerator Foo...Bar
        of a type tags member bar), None: not known"""
        ls = s.it.union_leaves(o)
        ms = {}
        for off, f in ls:
            ms.setdefault(f[0].split('.')[0].split('[')[0].replace('_', ''), []).append((off, f))
        for v in ints:
            for n in enumerators(o.di[0]).get(v, ()):
                m = ms.get(re.sub('^sbpmsg', '', n.lower()))
                if m:
                    return m
        return None

    def content(s, st, p, i, ints=()):
        r = []
        it = s.it
        if p.off.t:
            return r
        lay = it.layout(p.obj)
        if p.obj.bytes or not lay or len(lay) == 1 and 0 in lay and lay[0][2] == 1:
            n = 40
            if isinstance(p.obj.size, int):
                n = min(n, p.obj.size - int(p.off.c))
            for off in range(n):
                v = field(it, st, ptr(p.obj), int(p.off.c) + off, 1, None)
                if is_input(v, p.obj, int(p.off.c) + off, 1):
                    continue
                r.append(('%d.[%d]@%d:1:b' % (i, off, off), v))
            return r
        m = s.member(p.obj, ints) if is_union(p.obj) and ints else None
        for off, f in pick_fields(lay, 250, it.union_leaves(p.obj) if is_union(p.obj) else ()) if m is None else pick_fields(dict(m), 250):
            if off < p.off.c:
                continue
            v = field(it, st, ptr(p.obj), off, f[2], f[3])
            if is_input(v, p.obj, off, f[2]):
                continue
            r.append(('%d.%s@%d:%d:%s' % (i, f[0], off - int(p.off.c), f[2], f[3]), v))
        return r

    def dump_events(s, roots, meta):
        dm = s.dm
        cnt = [0]

        def ev(j):
            kind, nm, conds, args, cont, site, lp = s.ev[j]
            roots['ev%d:g' % j] = dm.conj(conds)
            for i, a in enumerate(args):
                t = s.strlit(a)
                roots['ev%d:a%d' % (j, i)] = dm.lit('str', t) if t is not None else dm.dump(a)
            for n2, v in cont:
                roots['ev%d:c%s' % (j, n2)] = dm.dump(v)
            meta['events'].append([kind, nm, len(args), [n2 for n2, v in cont]])

        def build(js, d):
            out = []
            i = 0
            while i < len(js):
                lp = s.ev[js[i]][6]
                if len(lp) <= d:
                    ev(js[i])
                    out.append(js[i])
                    i += 1
                    continue
                k = i
                while k < len(js) and len(s.ev[js[k]][6]) > d and s.ev[js[k]][6][d] == lp[d]:
                    k += 1
                c = summary.Ctx(lp[d], dm.cx)
                dm.cx = c
                kids = build(js[i:k], d + 1)
                f = dm.fold(c)
                dm.cx = c.up
                if f is None:
                    f = dm.lit('opq', 'loop', 0, False, opaque=True)
                nm = 'lp%d' % cnt[0]
                cnt[0] += 1
                roots[nm] = f
                out.append([nm, kids])
                i = k
            return out
        meta['trace'] = build(list(range(len(s.ev))), 0)


RCTYPES = ('rtcm3_rc', 'ubx_rc', 'ixcom_rc')


def returns_rc(fn):
    sp = fn.mod.md(fn.dbg) if fn.dbg is not None else None
    if not sp:
        return False
    ty = fn.mod.mdref(sp[1].get('type'))
    l = fn.mod.mdref(ty[1].get('types')) if ty else None
    n = fn.mod.mdref(l[1][0]) if l and l[1] and l[1][0] != 'null' else None
    while n and n[0] == 'DIDerivedType':
        if n[1].get('name', '').strip('"') in RCTYPES:
            return True
        n = fn.mod.mdref(n[1].get('baseType'))
    return False


def is_input(v, o, off, size):
    if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        a = v.t[0][0]
        return a.op == 'in' and a.a[3] == o.id and a.a[2] == size and not a.a[1].t and a.a[1].c == off
    if isinstance(v, Ptr) and v.obj.par is not None:
        po, o2 = v.obj.par
        return po is o and not o2.t and o2.c == off and not v.off.t and v.off.c == 0
    if isinstance(v, FnPtr):
        return v.name.startswith('*')
    return False


def extract(name, setup=None, sizes=None, watch=(), budget=4000000, seconds=60, guard_ret=None, pre=None, cuts=None, nbytes=96, vocab=None):
    """returns (Sum, Extract, interp) ; raises Budget"""
    prog = program()
    x = Extract(watch)
    fn = prog.find(name)
    if fn is None:
        raise KeyError(name)
    it = interp(prog, budget=budget)
    it.deadline = time.time() + seconds
    x.it = it
    it.vocab = vocab
    if cuts:
        it.natives = dict(it.natives)
        it.natives.update(cuts)
    st = St()
    args = sym_args(prog, it, fn, st, sizes)
    if setup:
        args = setup(it, st, fn, args) or args
    it.listeners = [x]
    args0 = list(args)
    st, rv = it.call(fn, args, st)
    if st is not None and isinstance(rv, Lin) and fn.rty.k == 'int':
        rv = norm(st, rv, fn.rty.n, bool(disign(prog, fn.mod, cutsmod.ret_di(prog, fn))))
    dm = x.dm
    roots = {}
    meta = {'sizes': {}, 'events': []}
    if st is not None:
        if isinstance(rv, Agg):
            for i, v in enumerate(rv.v):
                roots['ret.%d' % i] = dm.dump(v)
        elif rv is not None:
            roots['ret'] = dm.dump(rv)
        if rv is not None and returns_rc(fn) and isinstance(rv, Lin):
            c = rng(rv, 0, 0)
            if st.evalc(c) is not False:
                roots['ok'] = dm.dump(c)
                try:
                    st = ret_state(st, rv)
                except Dead:
                    pass
        bitobjs = set(e[1] for e in x.ev if e[0] == 'bitset')
        objs = [(a.obj, i) for i, a in enumerate(args0) if isinstance(a, Ptr)]
        for o, i in objs:
            lay = it.layout(o)
            if olabel(o) in bitobjs:
                continue
            if o.bytes:
                meta['sizes']['a%d' % i] = 'bytes'
                for off in range(nbytes):
                    v = field(it, st, ptr(o), off, 1, None)
                    if is_input(v, o, off, 1):
                        continue
                    roots['out:a%d.[%d]@%d:1:b' % (i, off, off)] = dm.dump(v)
                continue
            meta['sizes']['a%d' % i] = o.size.c if isinstance(o.size, Lin) and not o.size.t else o.size if isinstance(o.size, int) else None
            for off, f in pick_fields(lay, 600, it.union_leaves(o)):
                v = field(it, st, ptr(o), off, f[2], f[3])
                if is_input(v, o, off, f[2]):
                    continue
                roots['out:a%d.%s@%d:%d:%s' % (i, f[0], off, f[2], f[3])] = dm.dump(v)
        for o in list(st.mem):
            if o.par is not None and o.kind == 'in' and not any(o is a for a, _ in objs):
                lay = it.layout(o)
                lab = olabel(o)
                for off, f in pick_fields(lay, 300, it.union_leaves(o)):
                    v = field(it, st, ptr(o), off, f[2], f[3])
                    if is_input(v, o, off, f[2]):
                        continue
                    roots['out:%s.%s@%d:%d:%s' % (lab, f[0], off, f[2], f[3])] = dm.dump(v)
            elif o.kind == 'global' and not o.const:
                lay = it.layout(o)
                for off, f in pick_fields(lay, 200, it.union_leaves(o)):
                    v = field(it, st, ptr(o), off, f[2], f[3])
                    if is_input(v, o, off, f[2]):
                        continue
                    roots['out:%s.%s@%d:%d:%s' % (olabel(o), f[0], off, f[2], f[3])] = dm.dump(v)
    else:
        meta['noreturn'] = True
    x.dump_events(roots, meta)
    x.sites = [e[5] for e in x.ev]
    d = dm.d
    S = Sum(d.nodes, roots, d.hash, d.opq, d.und, meta)
    return S, x, it
