"""Parser for the textual LLVM-18 IR that build.py produces (one module per
source file; modules are linked by symbol name here)."""
import os, re, struct

TOK = re.compile(r'\s*(?:(c"(?:[^"\\]|\\.)*")|([%@][-a-zA-Z$._0-9]+|[%@]"[^"]*")|("[^"]*")|(![-a-zA-Z$._0-9]*)|([a-zA-Z_][-a-zA-Z_0-9.]*)|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+)|(\.\.\.|[\[\]{}()<>,=*:|#]))')


def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            if s[i] == ';':
                break
            i += 1
            continue
        out.append(m.group(0).strip())
        i = m.end()
    return out


class Ty:
    __slots__ = ('k', 'n', 'e', 'fields', 'packed', 'name', '_lay')

    def __init__(s, k, n=0, e=None, fields=None, packed=False, name=None):
        s.k, s.n, s.e, s.fields, s.packed, s.name, s._lay = k, n, e, fields, packed, name, None

    def __repr__(s):
        if s.k == 'int':
            return 'i%d' % s.n
        if s.k == 'arr':
            return '[%d x %r]' % (s.n, s.e)
        if s.k == 'struct':
            return s.name or '{..}'
        return s.k

    def align(s):
        if s.k == 'int':
            b = (s.n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if s.k in ('float',):
            return 4
        if s.k in ('double', 'ptr'):
            return 8
        if s.k == 'x86_fp80':
            return 16
        if s.k in ('arr', 'vec'):
            return s.e.align()
        if s.k == 'struct':
            if s.packed or not s.fields:
                return 1
            return max(f.align() for f in s.fields)
        return 1

    def size(s):
        if s.k == 'int':
            b = (s.n + 7) // 8
            a = s.align()
            return (b + a - 1) // a * a
        if s.k == 'float':
            return 4
        if s.k in ('double', 'ptr'):
            return 8
        if s.k == 'x86_fp80':
            return 16
        if s.k in ('arr', 'vec'):
            return s.n * s.e.size()
        if s.k == 'struct':
            return s.layout()[1]
        return 0

    def layout(s):
        if s._lay is None:
            offs, o, al = [], 0, 1
            for f in s.fields or ():
                if not s.packed:
                    a = f.align()
                    al = max(al, a)
                    o = (o + a - 1) // a * a
                offs.append(o)
                o += f.size()
            if not s.packed:
                o = (o + al - 1) // al * al
            s._lay = (offs, o)
        return s._lay


INTS = {}


def ity(n):
    if n not in INTS:
        INTS[n] = Ty('int', n)
    return INTS[n]


VOID, FLOAT, DOUBLE, PTR, META, LABEL = Ty('void'), Ty('float'), Ty('double'), Ty('ptr'), Ty('metadata'), Ty('label')
FP80 = Ty('x86_fp80')
SIMPLE = {'void': VOID, 'float': FLOAT, 'double': DOUBLE, 'ptr': PTR, 'metadata': META, 'label': LABEL, 'x86_fp80': FP80}


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'x', 'fn', 'blk', 'idx')

    def __init__(s, op, res, ty, a, dbg, x=None):
        s.op, s.res, s.ty, s.a, s.dbg, s.x = op, res, ty, a, dbg, x
        s.fn = None

    def __repr__(s):
        return '<%s %s %s>' % (s.res, s.op, s.a)


class Block:
    __slots__ = ('name', 'ins', 'phis', 'term', 'succ', 'pred')

    def __init__(s, name):
        s.name, s.ins, s.phis, s.term, s.succ, s.pred = name, [], [], None, [], []


def nullflags(f):
    """whether a pointer carried around a loop is null becomes a carried flag of its own"""
    for b in f.blocks.values():
        if len(b.pred) < 2 or not any(p.ty.k == 'ptr' for p in b.phis):
            continue
        for p in list(b.phis):
            if p.ty.k != 'ptr':
                continue
            me = ('reg', p.res)
            uses = [i for c in f.blocks.values() for i in c.ins if i.op == 'icmp' and i.x.get('pred') in ('eq', 'ne') and me in i.a and ('null',) in i.a]
            if not uses or any(x not in f.blocks for _, x in p.a):
                continue
            inc = []
            for n, (v, x) in enumerate(p.a):
                t = '%s.nul%d' % (p.res, n)
                c = Instr('icmp', t + 'c', PTR, [v, ('null',)], p.dbg, {'pred': 'eq'})
                z = Instr('select', t, ity(8), [('reg', t + 'c'), ('int', 1, 8), ('int', 0, 8)], p.dbg)
                for i in (c, z):
                    i.fn, i.blk = f, x
                    f.blocks[x].ins.insert(len(f.blocks[x].ins) - 1, i)
                inc.append((('reg', t), x))
            q = Instr('phi', p.res + '.nul', ity(8), inc, p.dbg)
            q.fn, q.blk = f, b.name
            b.phis.append(q)
            for i in uses:
                i.ty, i.a = ity(8), [('reg', q.res), ('int', 1, 8)]


class Func:
    def __init__(s, name, mod, rty, params, internal, dbg):
        s.name, s.mod, s.rty, s.params, s.internal, s.dbg = name, mod, rty, params, internal, dbg
        s.blocks = {}
        s.order = []
        s.loops = None
        s.line = 0
        s.dbgvars = {}      # alloca reg -> DILocalVariable id ; param reg -> id
        s.attrs = []

    def __repr__(s):
        return '<fn %s>' % s.name


class Global:
    def __init__(s, name, mod, ty, init, const, internal, dbg):
        s.name, s.mod, s.ty, s.init, s.const, s.internal, s.dbg = name, mod, ty, init, const, internal, dbg


def unesc(s):
    out = bytearray()
    i = 0
    b = s.encode('latin1', 'replace')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
                continue
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


PATTR = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
         'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'noreturn', 'nounwind', 'immarg', 'captures',
         'dead_on_unwind', 'writable', 'mustprogress', 'local_unnamed_addr', 'unnamed_addr', 'dso_local', 'hidden'}


class P:
    def __init__(s, mod, toks):
        s.m, s.t, s.i = mod, toks, 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        v = s.t[s.i]
        s.i += 1
        return v

    def accept(s, v):
        if s.peek() == v:
            s.i += 1
            return True
        return False

    def expect(s, v):
        g = s.next()
        if g != v:
            raise ValueError('expected %s got %s in %s' % (v, g, ' '.join(s.t)))

    def ty(s):
        t = s.next()
        if t in SIMPLE:
            r = SIMPLE[t]
        elif t[0] == 'i' and t[1:].isdigit():
            r = ity(int(t[1:]))
        elif t == '[':
            n = int(s.next())
            s.expect('x')
            e = s.ty()
            s.expect(']')
            r = Ty('arr', n, e)
        elif t == '<':
            if s.peek() == '{':
                s.next()
                r = s.body(True)
                s.expect('>')
            else:
                n = int(s.next())
                s.expect('x')
                e = s.ty()
                s.expect('>')
                r = Ty('vec', n, e)
        elif t == '{':
            r = s.body(False)
        elif t[0] == '%':
            r = s.m.struct(t[1:].strip('"'))
        elif t == 'opaque':
            r = Ty('opaque')
        else:
            raise ValueError('type? %s in %s' % (t, ' '.join(s.t)))
        if s.peek() == '(':  # function type
            d = 0
            while True:
                x = s.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        while s.peek() == '*':
            s.next()
            r = PTR
        return r

    def body(s, packed):
        f = []
        if s.accept('}'):
            return Ty('struct', fields=[], packed=packed)
        while True:
            f.append(s.ty())
            if s.accept('}'):
                return Ty('struct', fields=f, packed=packed)
            s.expect(',')

    def skip_attrs(s):
        while True:
            p = s.peek()
            if p in PATTR:
                s.next()
            elif p in ('align',):
                s.next(); s.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'memory', 'range'):
                s.next()
                if s.accept('('):
                    d = 1
                    while d:
                        x = s.next()
                        d += (x == '(') - (x == ')')
            else:
                return

    def val(s, ty):
        t = s.next()
        if t[0] == '%':
            return ('reg', t[1:].strip('"'))
        if t[0] == '@':
            return ('glob', t[1:].strip('"'))
        if t in ('true', 'false'):
            return ('int', 1 if t == 'true' else 0, 1)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t[0] == 'c' and t[1:2] == '"':
            return ('str', unesc(t[2:-1]))
        if t == '[' or t == '{' or t == '<':
            pk = t == '<' and s.peek() == '{'
            if pk:
                s.next()
            close = {'[': ']', '{': '}', '<': '}' if pk else '>'}[t]
            els = []
            if not s.accept(close):
                while True:
                    et = s.ty()
                    els.append((et, s.val(et)))
                    if s.accept(close):
                        break
                    s.expect(',')
            if pk:
                s.expect('>')
            return ('agg', els)
        if t == 'getelementptr':
            while s.peek() in ('inbounds', 'nuw', 'nusw'):
                s.next()
            s.expect('(')
            bt = s.ty()
            s.expect(',')
            idx = []
            s.ty()
            base = s.val(PTR)
            while s.accept(','):
                s.accept('inrange')
                it = s.ty()
                idx.append((it, s.val(it)))
            s.expect(')')
            return ('cgep', bt, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            s.expect('(')
            ft = s.ty()
            v = s.val(ft)
            s.expect('to')
            tt = s.ty()
            s.expect(')')
            return ('ccast', t, ft, v, tt)
        if t in ('add', 'sub', 'mul', 'icmp', 'select', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            d = 0
            while True:
                x = s.next()
                d += (x == '(') - (x == ')')
                if d == 0 and x == ')':
                    break
            return ('opaque', t)
        if ty is not None and ty.k in ('float', 'double', 'x86_fp80'):
            if t.startswith('0x'):
                if t[2] in 'HKLMR':
                    return ('fp', 0.0)
                return ('fp', struct.unpack('>d', struct.pack('>Q', int(t, 16)))[0])
            return ('fp', float(t))
        if re.match(r'-?\d+$', t):
            return ('int', int(t), ty.n if ty is not None else 64)
        if t == 'asm':
            return ('asm',)
        if t == 'blockaddress':
            return ('opaque', t)
        raise ValueError('value? %s in %s' % (t, ' '.join(s.t)))

    def tv(s):
        ty = s.ty()
        s.skip_attrs()
        return ty, s.val(ty)


META_RE = re.compile(r'^!(\d+) = (distinct )?(!?[A-Za-z]*)\(?(.*?)\)?$')


class Module:
    def __init__(s, path):
        s.path = path
        s.types = {}
        s.funcs = {}
        s.globals = {}
        s.decls = {}
        s.meta_raw = {}
        s._meta = {}
        s.src = None
        s.parse(open(path, encoding='latin1').read())

    def struct(s, name):
        if name not in s.types:
            s.types[name] = Ty('struct', name=name, fields=None)
        return s.types[name]

    # ---- metadata ----
    def md(s, i):
        """parsed metadata node: (kind, dict or list)"""
        if i in s._meta:
            return s._meta[i]
        raw = s.meta_raw.get(i)
        if raw is None:
            return None
        r = raw
        if r.startswith('distinct '):
            r = r[9:]
        if r.startswith('!{'):
            v = ('list', [x.strip() for x in split_top(r[2:-1])])
        else:
            m = re.match(r'!(DI\w+)\((.*)\)$', r)
            if not m:
                v = ('raw', r)
            else:
                d = {}
                for part in split_top(m.group(2)):
                    k, _, val = part.strip().partition(': ')
                    if val.startswith('"'):
                        val = val[1:-1]
                    d[k] = val
                v = (m.group(1), d)
        s._meta[i] = v
        return v

    def mdref(s, v):
        if v is None or not v.startswith('!') or not v[1:].isdigit():
            return None
        return s.md(int(v[1:]))

    def loc(s, dbg):
        """(file, line) for a !dbg id"""
        n = s.md(dbg) if dbg is not None else None
        if not n or n[0] != 'DILocation':
            return (s.srcfile(), 0)
        line = int(n[1].get('line', 0))
        sc = s.mdref(n[1].get('scope'))
        f = None
        while sc is not None:
            if 'file' in sc[1]:
                f = s.mdref(sc[1]['file'])
                break
            sc = s.mdref(sc[1].get('scope'))
        fn = f[1].get('filename', '?') if f else '?'
        return (relsrc(fn), line)

    def srcfile(s):
        return relsrc(s.src or s.path)

    def parse(s, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1
                continue
            c = l[0]
            if c == '!':
                m = re.match(r'!(\d+) = (.*)$', l)
                if m:
                    s.meta_raw[int(m.group(1))] = m.group(2)
            elif c == '%':
                m = re.match(r'%("[^"]*"|[^ ]+) = type (.*)$', l)
                name = m.group(1).strip('"')
                t = s.struct(name)
                if m.group(2) != 'opaque':
                    b = P(s, tokenize(m.group(2))).ty()
                    t.fields, t.packed = b.fields, b.packed
                    if t.fields is None:
                        t.fields = []
            elif c == '@':
                s.parse_global(l)
            elif l.startswith('source_filename'):
                s.src = l.split('"')[1]
            elif l.startswith('declare'):
                s.parse_header(l, True)
            elif l.startswith('define'):
                f = s.parse_header(l, False)
                i += 1
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                s.parse_body(f, body)
            i += 1
        for t in s.types.values():
            if t.fields is None:
                t.fields = []

    def parse_global(s, l):
        m = re.match(r'@("[^"]*"|[^ ]+) = (.*)$', l)
        name = m.group(1).strip('"')
        rest = m.group(2)
        dm = re.search(r', !dbg !(\d+)', rest)
        internal = bool(re.match(r'(private|internal)', rest))
        ext = bool(re.match(r'(external|extern_weak)', rest))
        if ' alias ' in ' ' + rest:
            return
        mm = re.search(r'\b(global|constant)\b ', rest)
        if not mm:
            return
        try:
            p = P(s, tokenize(rest[mm.end():]))
            ty = p.ty()
            init = None if ext else p.val(ty)
        except Exception:
            ty, init = Ty('opaque'), ('opaque', 'global')
        s.globals[name] = Global(name, s, ty, init, mm.group(1) == 'constant', internal, int(dm.group(1)) if dm else None)

    def parse_header(s, l, decl):
        dm = re.search(r'!dbg !(\d+)', l)
        internal = bool(re.search(r'\b(internal|private)\b', l.split('(')[0]))
        toks = tokenize(l)
        k = next(j for j, t in enumerate(toks) if t[0] == '@')
        # return type: parse tokens before name
        pre = [t for t in toks[1:k]]
        drop = PATTR | {'internal', 'private', 'linkonce_odr', 'weak', 'weak_odr', 'available_externally', 'external', 'linkonce', 'comdat', 'fastcc', 'extern_weak', 'default'}
        j = 0
        while j < len(pre) and (pre[j] in drop or pre[j] in ('align', 'dereferenceable', 'range')):
            if pre[j] == 'align':
                j += 2
            elif pre[j] in ('dereferenceable', 'range'):
                j += 4
            else:
                j += 1
        rty = P(s, pre[j:]).ty()
        name = toks[k][1:].strip('"')
        p = P(s, toks)
        p.i = k + 1
        p.expect('(')
        params = []
        va = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    va = True
                    p.expect(')')
                    break
                ty = p.ty()
                byval = any(x in ('byval', 'sret') for x in p.t[p.i:p.i + 3])
                p.skip_attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()[1:].strip('"')
                params.append((ty, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        f = Func(name, s, rty, params, internal, int(dm.group(1)) if dm else None)
        f.va = va
        if decl:
            s.decls[name] = f
        else:
            s.funcs[name] = f
        return f

    def parse_body(s, f, body):
        cur = None
        j = 0
        while j < len(body):
            l = body[j]
            j += 1
            if not l or l.startswith(';'):
                continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[^ :]+):', l)
                cur = Block(m.group(1).strip('"'))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('entry')
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if re.match(r'\s+switch ', l):
                while ']' not in body[j - 1]:
                    l += ' ' + body[j].strip()
                    j += 1
            ins = s.parse_instr(f, l)
            if ins is None:
                continue
            ins.fn = f
            ins.blk = cur.name
            if ins.op == 'phi':
                cur.phis.append(ins)
            elif ins.op in ('br', 'switch', 'ret', 'unreachable', 'condbr', 'invoke'):
                cur.term = ins
                cur.ins.append(ins)
            else:
                cur.ins.append(ins)
        for b in f.blocks.values():
            t = b.term
            if t is None:
                continue
            if t.op == 'br':
                b.succ = [t.a[0]]
            elif t.op == 'condbr':
                b.succ = [t.a[1], t.a[2]]
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke':
                b.succ = [t.x['normal']]
            seen = []
            for x in b.succ:
                if x not in seen:
                    seen.append(x)
            for x in seen:
                f.blocks[x].pred.append(b.name)
        # drop blocks not reachable
        reach, st = set(), [f.order[0]]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(f.blocks[x].succ)
        f.order = [x for x in f.order if x in reach]
        f.blocks = {k: v for k, v in f.blocks.items() if k in reach}
        for b in f.blocks.values():
            b.pred = [p for p in b.pred if p in reach]
        nullflags(f)

    def parse_instr(s, f, l):
        dm = re.search(r', !dbg !(\d+)', l)
        dbg = int(dm.group(1)) if dm else None
        core = l.strip()
        if dm:
            core = core[:core.index(', !dbg !')]
        m = re.match(r'(%"[^"]*"|%[^ ]+) = (.*)$', core)
        res = None
        if m:
            res = m.group(1)[1:].strip('"')
            core = m.group(2)
        if 'call void @llvm.dbg.' in core:
            mm = re.search(r'@llvm\.dbg\.(declare|value)\(metadata (.*?), metadata !(\d+),', core)
            if mm:
                rm = re.match(r'ptr (%"[^"]*"|%[^ ,]+)$', mm.group(2))
                if rm and mm.group(1) == 'declare':
                    f.dbgvars[rm.group(1)[1:].strip('"')] = int(mm.group(3))
                rm = re.match(r'\S+ (%"[^"]*"|%[^ ,]+)$', mm.group(2))
                if rm and mm.group(1) == 'value':
                    f.dbgvars.setdefault(rm.group(1)[1:].strip('"'), int(mm.group(3)))
            return None
        toks = tokenize(core)
        p = P(s, toks)
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'call' or op == 'invoke':
            while p.peek() in ('fastcc', 'ccc', 'nnan', 'ninf', 'nsz', 'fast', 'contract', 'reassoc', 'afn', 'arcp') or p.peek() in PATTR or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
                if p.peek() in ('align',):
                    p.next(); p.next()
                elif p.peek() in ('dereferenceable', 'dereferenceable_or_null', 'range'):
                    p.skip_attrs()
                else:
                    p.next()
            rty = p.ty()
            if p.peek() == 'asm':
                return Instr('call', res, rty, [], dbg, {'callee': ('opaque', 'asm')})
            callee = p.val(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    ty = p.ty()
                    if ty is META:
                        # skip
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            d += (x == '(') - (x == ')')
                        args.append((ty, ('meta',)))
                    else:
                        p.skip_attrs()
                        args.append((ty, p.val(ty)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            x = {'callee': callee}
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.next()
                x['normal'] = p.next()[1:].strip('"')
            return Instr(op, res, rty, args, dbg, x)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Instr('br', None, VOID, [p.next()[1:].strip('"')], dbg)
            p.ty()
            c = p.val(ity(1))
            p.expect(','); p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(','); p.expect('label')
            b = p.next()[1:].strip('"')
            if a == b:
                return Instr('br', None, VOID, [a], dbg)
            return Instr('condbr', None, VOID, [c, a, b], dbg)
        if op == 'switch':
            ty = p.ty()
            v = p.val(ty)
            p.expect(','); p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.ty()
                cv = p.val(ct)
                p.expect(','); p.expect('label')
                cases.append((cv[1], p.next()[1:].strip('"')))
            return Instr('switch', None, ty, [v, d, cases], dbg)
        if op == 'ret':
            ty = p.ty()
            return Instr('ret', None, ty, [] if ty is VOID else [p.val(ty)], dbg)
        if op in ('unreachable', 'resume'):
            return Instr('unreachable', None, VOID, [], dbg)
        if op == 'phi':
            while p.peek() in ('nnan', 'fast'):
                p.next()
            ty = p.ty()
            inc = []
            while True:
                p.expect('[')
                v = p.val(ty)
                p.expect(',')
                b = p.next()[1:].strip('"')
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            return Instr('phi', res, ty, inc, dbg)
        if op == 'alloca':
            p.accept('inalloca')
            ty = p.ty()
            n = None
            if p.accept(',') and p.peek() != 'align':
                n = p.tv()
            return Instr('alloca', res, ty, [n], dbg)
        if op == 'load':
            at = p.accept('atomic'); p.accept('volatile')
            ty = p.ty()
            p.expect(',')
            return Instr('load', res, ty, [p.tv()[1]], dbg, {'atomic': at})
        if op == 'store':
            at = p.accept('atomic'); p.accept('volatile')
            ty, v = p.tv()
            p.expect(',')
            return Instr('store', None, ty, [v, p.tv()[1]], dbg, {'atomic': at})
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.ty()
            p.expect(',')
            _, base = p.tv()
            idx = []
            while p.accept(','):
                if p.peek() and p.peek()[0] == '!':
                    break
                idx.append(p.tv())
            return Instr('gep', res, PTR, [base, idx], dbg, {'bt': bt})
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('nnan', 'ninf', 'nsz', 'fast', 'samesign'):
                p.next()
            pred = p.next()
            ty = p.ty()
            a = p.val(ty)
            p.expect(',')
            b = p.val(ty)
            return Instr(op, res, ty, [a, b], dbg, {'pred': pred})
        if op == 'select':
            p.ty()
            c = p.val(ity(1))
            p.expect(',')
            ty, a = p.tv()
            p.expect(',')
            _, b = p.tv()
            return Instr('select', res, ty, [c, a, b], dbg)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'freeze', 'fneg', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw', 'fast', 'nnan'):
                p.next()
            ft, v = p.tv()
            tt = ft
            if p.accept('to'):
                tt = p.ty()
            return Instr(op, res, tt, [v], dbg, {'from': ft})
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                fl.append(p.next())
            ty = p.ty()
            a = p.val(ty)
            p.expect(',')
            b = p.val(ty)
            return Instr(op, res, ty, [a, b], dbg, {'flags': fl})
        if op == 'extractvalue':
            ty, v = p.tv()
            p.expect(',')
            ix = [int(p.next())]
            while p.accept(','):
                ix.append(int(p.next()))
            return Instr(op, res, ty, [v, ix], dbg)
        if op == 'insertvalue':
            ty, v = p.tv()
            p.expect(',')
            et, e = p.tv()
            p.expect(',')
            ix = [int(p.next())]
            return Instr(op, res, ty, [v, e, ix, et], dbg)
        if op == 'cmpxchg':
            p.accept('weak'); p.accept('volatile')
            _, ptr = p.tv()
            p.expect(',')
            ty, a = p.tv()
            p.expect(',')
            _, b = p.tv()
            return Instr(op, res, ty, [ptr, a, b], dbg)
        if op == 'atomicrmw':
            p.accept('volatile')
            k = p.next()
            _, ptr = p.tv()
            p.expect(',')
            ty, a = p.tv()
            return Instr(op, res, ty, [ptr, a], dbg, {'k': k})
        if op in ('fence',):
            return None
        return Instr('unknown', res, PTR, [], dbg, {'text': core})


def split_top(s):
    out, d, cur, q = [], 0, [], False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{':
                d += 1
            elif ch in ')]}':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(''.join(cur))
                cur = []
                continue
        cur.append(ch)
    if cur:
        out.append(''.join(cur))
    return out


def relsrc(p):
    m = re.search(r'(?:^|/)repo/(c/.*)$', p)
    if m:
        return m.group(1)
    i = p.rfind('/c/')
    if i >= 0:
        return p[i + 1:]
    return p


class Program:
    def __init__(s, paths):
        s.mods = [Module(p) for p in paths]
        s.ext = {}
        s.extg = {}
        for m in s.mods:
            for f in m.funcs.values():
                if not f.internal:
                    s.ext.setdefault(f.name, f)
            for g in m.globals.values():
                if not g.internal and g.init is not None:
                    s.extg.setdefault(g.name, g)
        # the programs' own main functions and their callbacks are known as <source>.<name>
        s.alias = {}
        cnt = {}
        for m in s.mods:
            for n, f in m.funcs.items():
                if f.blocks and m.src:
                    cnt[n] = cnt.get(n, 0) + 1
        for m in s.mods:
            if m.src and m.src.endswith('_main.c'):
                for n, f in m.funcs.items():
                    if f.blocks and (cnt[n] > 1 or n == 'main'):
                        f.name = os.path.basename(m.src)[:-2] + '.' + n
                        s.alias[f.name] = f

    def func(s, mod, name):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        return s.ext.get(name)

    def find(s, name):
        if name in s.alias:
            return s.alias[name]
        if name in s.ext:
            return s.ext[name]
        for m in s.mods:
            if name in m.funcs:
                return m.funcs[name]
        return None

    def glob(s, mod, name):
        g = mod.globals.get(name)
        if g is not None and g.init is not None:
            return g
        return s.extg.get(name, g)

    def all_funcs(s):
        for m in s.mods:
            for f in m.funcs.values():
                yield f

    # ---- debug-info types ----
    def ditype(s, mod, ref):
        """strip typedef/const -> (kind, dict)"""
        n = mod.mdref(ref)
        while n and n[0] == 'DIDerivedType' and n[1].get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
            n = mod.mdref(n[1].get('baseType'))
        return n

    def struct_di(s, name):
        """find composite type (struct/union) by tag or typedef name: (mod, node)"""
        for m in s.mods:
            idx = getattr(m, '_tyidx', None)
            if idx is None:
                idx = {}
                for i, raw in m.meta_raw.items():
                    if 'DW_TAG_typedef' in raw or 'DICompositeType' in raw:
                        mm = re.search(r'name: "([^"]+)"', raw)
                        if mm:
                            idx.setdefault(mm.group(1), []).append(i)
                m._tyidx = idx
            for i in idx.get(name, ()):
                n = s.ditype(m, '!%d' % i)
                if n and n[0] == 'DICompositeType' and n[1].get('elements'):
                    return m, n
        return None

    def fields(s, mod, node, base=0, prefix='', out=None, depth=0):
        """flatten a DI type into [(path, byte offset, byte size, encoding)]; arrays
        give path 'x[*]' with (count, stride)"""
        if out is None:
            out = []
        if node is None:
            return out
        k, d = node
        if k == 'DIBasicType':
            out.append((prefix, base, int(d.get('size', 0)) // 8, d.get('encoding'), None))
        elif k == 'DIDerivedType' and d.get('tag') == 'DW_TAG_pointer_type':
            out.append((prefix, base, 8, 'ptr', None))
        elif k == 'DICompositeType':
            tag = d.get('tag')
            if tag == 'DW_TAG_enumeration_type':
                out.append((prefix, base, int(d.get('size', 0)) // 8, 'enum', None))
            elif tag == 'DW_TAG_array_type':
                et = s.ditype(mod, d.get('baseType'))
                els = mod.mdref(d.get('elements'))
                cnt = 1
                for e in (els[1] if els else ()):
                    sr = mod.mdref(e)
                    c = sr[1].get('count', '0') if sr else '0'
                    cnt *= int(c) if re.match(r'-?\d+$', c) else 0
                total = int(d.get('size', 0)) // 8
                if cnt <= 0 or total == 0:
                    return out
                es = total // cnt
                if es == 0:
                    return out
                if cnt <= 300:
                    for i in range(cnt):
                        s.fields(mod, et, base + i * es, '%s[%d]' % (prefix, i), out, depth + 1)
                else:
                    out.append((prefix + '[]', base, total, 'bigarray', (cnt, es)))
            else:
                els = mod.mdref(d.get('elements'))
                for e in (els[1] if els else ()):
                    m = mod.mdref(e)
                    if not m or m[1].get('tag') != 'DW_TAG_member':
                        continue
                    off = int(m[1].get('offset', 0)) // 8
                    nm = m[1].get('name', '')
                    s.fields(mod, s.ditype(mod, m[1].get('baseType')), base + off,
                             (prefix + '.' + nm) if prefix and nm else (nm or prefix), out, depth + 1)
        return out


def compute_loops(f):
    """natural loops (reducible CFGs): header -> Loop; also RPO"""
    if f.loops is not None:
        return f.loops
    blocks = f.blocks
    order = []
    seen = set()
    entry = f.order[0]
    stack = [(entry, iter(blocks[entry].succ))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(blocks[x].succ)))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in blocks[b].pred:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for x in blocks[b].succ:
            if dom(x, b):
                body = loops.setdefault(x, {x})
                st = [b]
                while st:
                    y = st.pop()
                    if y not in body:
                        body.add(y)
                        st.extend(blocks[y].pred)
    f.loops = loops
    f.rpo = rpo
    f.rpon = num
    f.idom = idom
    return loops
