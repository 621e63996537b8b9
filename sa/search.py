"""Search for a valuation on which two unequal terms disagree.

The search is guided by the difference: the terms are walked down to a construct that only one
of them contains, the gates met on the way are made to select it, and the leaves are set by
inverting the operations (a local repair, no path enumeration and no solver)."""
import random, time
from summary import *
from summary import satisfy, Env, evaluate, orbad, iterate, consts, support, close, Undef, Uninit, Unknown, ev3, setleaf, Val, describe, _clampuf, INF

LEAF = ('in', 'ins', 'bits', 'sbits', 'param')


def env_of(S, V, stack):
    """environment of the first iteration of the enclosing loops (kept until V changes)"""
    ch = V.__dict__.setdefault('cache', {})
    env = ch.get((id(S), stack))
    if env is not None:
        env.fuel = 6000
        return env
    env = Env()
    for f in stack:
        n = S.nodes[f]
        d, k = n[1], n[2]
        vals = [orbad(S, x.i, V, env) for x in n[4:4 + k]]
        del env.memos[d + 1:]
        del env.binds[d:]
        env.memos.append({})
        env.binds.append((0, vals))
    ch[(id(S), stack)] = env
    return env


def val(S, i, V, stack):
    return evaluate(S, i, V, env_of(S, V, stack))


def val3(S, i, V, stack):
    try:
        return bool(val(S, i, V, stack))
    except Undef:
        return None


NICE = [0.0, 1.0, 0.5, -1.0, 2.5, 10.0, 100.0, 1000.0, 12345.0, 302400.0, 604799.0]


class Late(Exception):
    pass


def define(S, i, V, stack, rnd, d=0):
    """give a value to a term that has none on this valuation"""
    if d > 40:
        return
    if time.time() > V.deadline:
        raise Late()
    n = S.nodes[i]
    if val3(S, i, V, stack) is not None:
        return
    seen = V.cache.setdefault('def', {})
    if seen.get((id(S), i, stack), 99) <= d:
        return         # tried since the last change
    seen[(id(S), i, stack)] = d
    if n[0] == 't:b2f':
        setval(S, i, rnd.choice(NICE), V, stack, rnd, 25)
        return
    if n[0] in ('mx', 'kx'):
        f = S.nodes[n[1].i]
        st = stack[:f[1]]
        for x in f[4:4 + f[2]]:
            define(S, x.i, V, st, rnd, d + 1)
        st = st + (n[1].i,)
        for x in f[4 + f[2]:] + (f[3],):
            define(S, x.i, V, st, rnd, d + 1)
        if val3(S, i, V, stack) is None:
            make(S, f[3].i, False, V, st, rnd, d + 20)
        return
    if n[0] == 'atv':
        f = S.nodes[n[2].i]
        define(S, n[3].i, V, stack, rnd, d + 1)
        st = stack[:n[1]]
        for x in f[4:4 + f[2]]:
            define(S, x.i, V, st, rnd, d + 1)
        st = st + (n[2].i,)
        for x in f[4 + f[2]:] + (f[3], n[4]):
            define(S, x.i, V, st, rnd, d + 1)
        return
    if n[0] == 'mv':
        if n[1] < len(stack):
            define(S, S.nodes[stack[n[1]]][4 + n[2]].i, V, stack[:n[1]], rnd, d + 1)
        return
    ks = [x.i for x in n[1:] if isinstance(x, Ref)]
    for k in ks:
        define(S, k, V, stack, rnd, d + 1)
    if n[0] in ('t:fdivv', 't:udiv', 't:sdiv', 't:urem', 't:srem') and val3(S, i, V, stack) is None:
        setval(S, ks[1], rnd.choice([1, 2, 10]), V, stack, rnd, 25)
    elif n[0] in ('flt', 'fle', 'feq') and val3(S, i, V, stack) is None:
        setval(S, ks[0], rnd.choice([0.0, 1.0, -1.0]), V, stack, rnd, 25)


def setval(S, i, tgt, V, stack, rnd, d=0):
    """change leaves so that node i gets (near) the value tgt -> changed?"""
    if d > 30:
        return False
    if time.time() > V.deadline:
        raise Late()
    n = S.nodes[i]
    op = n[0]
    try:
        if op in LEAF:
            if op == 'param' and not n[4] and not n[2] <= tgt <= n[3]:
                tgt = min(max(tgt, n[2]), n[3])
            if not (op == 'param' and n[4] or op == 'in' and n[7] or op == 'ins' and n[5]):
                tgt = int(tgt)
            setleaf(S, i, tgt, V, env_of(S, V, stack))
            V.cache = {}
            return True
        if op == 'lin':
            if val3(S, i, V, stack) is None:
                define(S, i, V, stack, rnd)
            cur = val(S, i, V, stack)
            js = list(range(3, len(n), 2))
            rnd.shuffle(js)
            for j in js:
                k = n[j + 1]
                x = val(S, n[j].i, V, stack)
                rest = cur - k * x
                t = (tgt - rest) / k
                if not n[1]:
                    t = (tgt - rest) // k
                if setval(S, n[j].i, t, V, stack, rnd, d + 1):
                    return True
            return False
        if op == 'mv':
            f = S.nodes[stack[n[1]]]
            return setval(S, f[4 + n[2]].i, tgt, V, stack[:n[1]], rnd, d + 1)
        if op == 'atv':
            return setval(S, n[4].i, tgt, V, stack[:n[1]] + (n[2].i,), rnd, d + 1)
        if op == 'mx':
            f = S.nodes[n[1].i]
            return setval(S, f[4].i, tgt, V, stack[:f[1]], rnd, d + 1)
        if op == 'tbl':
            c = [x for x, sz, v in n[1] if v == tgt]
            if c:
                return setval(S, n[4].i, rnd.choice(c), V, stack, rnd, d + 1)
            return False
        if op == 'b':
            return setval(S, n[1].i, tgt, V, stack, rnd, d + 1)
        if op == 'isnull' or op == 'addr':
            V.par[n] = tgt
            V.cache = {}
            return True
        if op == 'ptr' and isinstance(tgt, (int, float)):
            return setval(S, n[2].i, tgt, V, stack, rnd, d + 1)
        if op == 'crc':
            V.uf[('crc',) + n[1:3] + tuple(val(S, x.i, V, stack) for x in n[3:])] = int(tgt) & 0xffffffff
            V.cache = {}
            return True
        if op in ('ite', 't:ite'):
            ks = [x.i for x in n if isinstance(x, Ref)]
            c = val3(S, ks[0], V, stack)
            br = [1, 2]
            if c is not None and rnd.random() < 0.6:
                br = [1 if c else 2]
            else:
                rnd.shuffle(br)
            for b in br:
                if S.nodes[ks[b]][0] == 'c':
                    if S.nodes[ks[b]][1] == tgt:
                        return make(S, ks[0], b == 1, V, stack, rnd, d + 1)
                    continue
                make(S, ks[0], b == 1, V, stack, rnd, d + 1)
                return setval(S, ks[b], tgt, V, stack, rnd, d + 1)
            return False
        if op.startswith('t:'):
            o = op[2:]
            lits, isf, lo, hi = n[1:5]
            ks = [x.i for x in n[5:]]
            SV = lambda k, t: setval(S, ks[k], t, V, stack, rnd, d + 1)
            A = lambda k: val(S, ks[k], V, stack)
            if o == 'mod':
                m = lits[0]
                cur = A(0)
                return SV(0, cur - cur % m + tgt) or SV(0, tgt)
            if o == 'fdiv':
                return SV(0, tgt * lits[0] + (A(0) % lits[0] if rnd.random() < 0.7 else rnd.randrange(int(lits[0]))))
            if o in ('i2f', 'f2i', 'ftrunc', 'round', 'ffloor', 'fceil', 'ftrnc', 'rint'):
                return SV(0, tgt)
            if o in ('mul', 'fmul'):
                k = rnd.randrange(2)
                for q in (k, 1 - k):
                    other = A(1 - q)
                    if other != 0:
                        if SV(q, tgt / other if isf or o == 'fmul' else tgt // other):
                            return True
                return False
            if o == 'fdivv':
                b = A(1)
                if rnd.random() < 0.7:
                    return SV(0, tgt * b)
                return SV(1, A(0) / tgt if tgt else b)
            if o in ('and', 'or', 'xor'):
                k = rnd.randrange(2)
                return SV(k, tgt) or SV(1 - k, tgt)
            if o == 'shl':
                return SV(0, int(tgt) >> min(A(1), 60))
            if o in ('lshr', 'ashr'):
                return SV(0, int(tgt) << min(A(1), 60))
            if o == 'udiv' or o == 'sdiv':
                return SV(0, int(tgt) * A(1))
            if o in ('urem', 'srem'):
                return SV(0, tgt)
            if o == 'b2f':
                import struct
                sz = lits[0]
                x = int.from_bytes(struct.pack('<d' if sz == 8 else '<f', float(tgt)), 'little')
                cur = A(0)
                return SV(0, cur - cur % (1 << (8 * sz)) + x)
            if o == 'fn:sqrt':
                return SV(0, tgt * tgt)
            if o in ('ldexp', 'pow', 'frem') or o.startswith('fn:') or o in ('isnan', 'nonfinite'):
                return bool(ks) and SV(0, tgt)
            # an uninterpreted function: choose its value
            if hi is not None and hi < INF:
                tgt = min(tgt, hi)
            if lo is not None and lo > -INF:
                tgt = max(tgt, lo)
            V.uf[(o, lits) + tuple(val(S, k, V, stack) for k in ks)] = tgt if isf else int(tgt)
            V.cache = {}
            return True
    except (Undef, ZeroDivisionError, OverflowError, ValueError, TypeError):
        return False
    return False


def make(S, i, want, V, stack, rnd, d=0):
    """change leaves towards truth value `want` of condition i"""
    if d > 40:
        return False
    n = S.nodes[i]
    op = n[0]
    if val3(S, i, V, stack) is want and rnd.random() < 0.97:
        return True
    if op == 'not':
        return make(S, n[1].i, not want, V, stack, rnd, d + 1)
    if op in ('and', 'or'):
        lock = V.__dict__.get('lock', {})
        ks = [x.i for x in n[1:]]
        ks = [k for k in ks if lock.get(S.hash[k], want) is want] or ks
        if (op == 'and') == want:
            rnd.shuffle(ks)
            for k in ks:
                make(S, k, want, V, stack, rnd, d + 1)
        else:
            for _ in range(3):
                k = rnd.choice(ks)
                make(S, k, want, V, stack, rnd, d + 1)
                if val3(S, i, V, stack) is want:
                    return True
        return val3(S, i, V, stack) is want
    if op in ('ite', 't:ite'):
        ks = [x.i for x in n if isinstance(x, Ref)]
        c = val3(S, ks[0], V, stack)
        if c is None or rnd.random() < 0.3:
            c = rnd.random() < 0.5
            make(S, ks[0], c, V, stack, rnd, d + 1)
        return make(S, ks[1] if c else ks[2], want, V, stack, rnd, d + 1)
    if op == 'rng':
        lo, hi, k = n[1], n[2], n[3].i
        off = rnd.choice([0, 0, 0, 1, 3, rnd.randrange(200)])
        if want:
            if lo == -INF:
                t = hi - off
            elif hi == INF:
                t = lo + off
            else:
                t = rnd.choice([lo, hi, rnd.randint(int(lo), int(hi))])
        else:
            c = ([lo - 1 - off] if lo != -INF else []) + ([hi + 1 + off] if hi != INF else [])
            t = rnd.choice(c)
        return setval(S, k, t, V, stack, rnd, d + 1)
    if op == 'ne':
        return setval(S, n[2].i, n[1] + rnd.choice([-1, 1, 2, 7]) if want else n[1], V, stack, rnd, d + 1)
    if op in ('flt', 'fle', 'feq'):
        neg = -rnd.choice([1e-3, 0.4, 0.5, 1.0, 3.7, 100.0])
        if op == 'flt':
            t = neg if want else rnd.choice([0.0, -neg])
        elif op == 'fle':
            t = rnd.choice([0.0, neg]) if want else -neg
        else:
            t = 0.0 if want else rnd.choice([neg, -neg])
        return setval(S, n[1].i, t, V, stack, rnd, d + 1)
    if op == 'b':
        return setval(S, n[1].i, 1 if want else 0, V, stack, rnd, d + 1)
    if op in ('T', 'F'):
        return (op == 'T') == want
    return setval(S, i, 1 if want else 0, V, stack, rnd, d + 1)


def cone(S, roots):
    seen = set()
    todo = list(roots)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo += [x.i for x in S.nodes[i] if isinstance(x, Ref)]
    return seen


class Diff:
    """constructs of S (below roots) that the other summary does not have"""

    def __init__(s, S, roots, other_hashes):
        s.S = S
        s.cone = cone(S, roots)
        h = S.hash
        s.novel = set(i for i in s.cone if h[i] not in other_hashes)
        s.front = [i for i in sorted(s.novel) if not any(isinstance(x, Ref) and x.i in s.novel for x in S.nodes[i])]
        # nodes from which a frontier node can be reached, per frontier node (lazily)
        s.up = {}
        for i in s.cone:
            for x in S.nodes[i]:
                if isinstance(x, Ref):
                    s.up.setdefault(x.i, []).append(i)
        s.roots = set(roots)

    def init(s, root, rnd):
        """constraints that make the root matter, and the loops around it"""
        return [], ()

    def path(s, f, rnd):
        """a random way up from f to a root, as a list root..f"""
        p = [f]
        i = f
        seen = {f}
        while i not in s.roots:
            u = [x for x in s.up.get(i, ()) if x not in seen]
            if not u:
                return None
            i = rnd.choice(u)
            seen.add(i)
            p.append(i)
            if len(p) > 400:
                return None
        p.reverse()
        return p


def constraints(S, p, stack=()):
    """[(cond, want, stack)] that make the value at the end of the way matter"""
    out = []
    for a, b in zip(p, p[1:]):
        n = S.nodes[a]
        op = n[0]
        if op in ('ite', 't:ite'):
            ks = [x.i for x in n if isinstance(x, Ref)]
            if b == ks[1]:
                out.append((ks[0], True, stack))
            elif b == ks[2]:
                out.append((ks[0], False, stack))
        elif op in ('and', 'or'):
            for x in n[1:]:
                if x.i != b:
                    out.append((x.i, op == 'and', stack))
        elif op == 'atv':
            if b == n[4].i:
                stack = stack[:n[1]] + (n[2].i,)
        elif op == 'fold':
            stack = stack[:n[1]] + (a,)
            if b != n[3].i:
                out.append((n[3].i, True, stack))
    return out, stack


def solve(S, cons, V, rnd, rounds=12):
    V.lock = {S.hash[c]: w for c, w, st in cons}
    for c in cons:
        if val3(S, c[0], V, c[2]) is None:
            define(S, c[0], V, c[2], rnd)
    for r in range(rounds):
        bad = [c for c in cons if val3(S, c[0], V, c[2]) is not c[1]]
        if not bad:
            return True
        rnd.shuffle(bad)
        for c in bad:
            make(S, c[0], c[1], V, c[2], rnd)
    return False


def steer(D, f, V, rnd, base=(), no=()):
    """valuation change so that construct f of D matters and sits at one of its edges"""
    S = D.S
    p = D.path(f, rnd)
    if p is None:
        return
    start = D.init(p[0], rnd)
    if start is None:
        return
    cons, stack = constraints(S, p, start[1])
    cons = [(c, True, ()) for c in base] + [(c, False, ()) for c in no] + start[0] + cons
    # the condition closest to the construct is put on one of its edges
    COND = ('rng', 'ne', 'flt', 'fle', 'feq', 'b')
    c = None
    sts = []
    st2 = start[1]
    for i, nxt in zip(p, p[1:] + [None]):
        if S.nodes[i][0] == 'fold':
            st2 = st2[:S.nodes[i][1]] + (i,)
        if S.nodes[i][0] == 'atv' and nxt == S.nodes[i][4].i:
            st2 = st2[:S.nodes[i][1]] + (S.nodes[i][2].i,)
        if S.nodes[i][0] in COND:
            c = (i, st2)
    if c is not None:
        cons.append((c[0], rnd.random() < 0.5, c[1]))
    solve(S, cons, V, rnd)
    if c is not None and rnd.random() < 0.4:
        n = S.nodes[c[0]]
        if n[0] in ('flt', 'fle', 'feq'):
            setval(S, n[1].i, 0.0, V, c[1], rnd)
        elif n[0] == 'rng':
            e = [x for x in n[1:3] if x not in (INF, -INF)]
            setval(S, n[3].i, rnd.choice(e) + rnd.choice([-1, 0, 1]), V, c[1], rnd)


def mutate(V, rnd, leaves, pool, k=None):
    """a neighbour of a valuation"""
    W = Val(rnd)
    W.bytes, W.fl, W.par, W.uf = dict(V.bytes), dict(V.fl), dict(V.par), dict(V.uf)
    W.bias, W.salt, W.sparse = V.bias, V.salt, V.sparse
    W.elems, W.few = V.elems, V.few
    W.cache = {}
    for _ in range(rnd.choice([1, 1, 1, 2, 2, 4, 8]) if k is None else k):
        r = rnd.random()
        if r < 0.3 and leaves:
            S, i = rnd.choice(leaves)
            p = pool.get(S.hash[i])
            n = S.nodes[i]
            try:
                if p and rnd.random() < 0.6:
                    setleaf(S, i, rnd.choice(list(p)), W, Env())
                else:
                    setleaf(S, i, rnd.randrange(1 << rnd.choice([1, 2, 4, 8, 12, 20])), W, Env())
            except Undef:
                pass
        elif r < 0.65 and V.log:
            if len(V.__dict__.setdefault('fields', ())) != len(V.log):
                V.fields = list(V.log.items())
            (lab, at, ln), kind = rnd.choice(V.fields)
            w = ln if kind == 'b' else 8 * ln
            v = rnd.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 1 << rnd.randrange(w), rnd.randrange(1 << w), rnd.randrange(1 << w), None, None])
            if v is None:
                # copy another field of the same size (equal values matter)
                o = [f for f, kk in V.fields if kk == kind and f[2] == ln and f[0] == lab]
                f = rnd.choice(o)
                if kind == 'b':
                    v = 0
                    for i in range(ln):
                        p = f[1] + i
                        v = v * 2 + ((W.byte(lab, p >> 3) >> (7 - (p & 7))) & 1)
                else:
                    v = sum(W.byte(lab, f[1] + i) << (8 * i) for i in range(ln))
                v = (v + rnd.choice([0, 0, 1, -1])) % (1 << w)
            if kind == 'b':
                for i in range(ln):
                    p = at + i
                    b = W.byte(lab, p >> 3)
                    m = 0x80 >> (p & 7)
                    W.bytes[(lab, p >> 3)] = b | m if v >> (ln - 1 - i) & 1 else b & ~m
            else:
                for i in range(ln):
                    W.bytes[(lab, at + i)] = v >> (8 * i) & 255
        elif r < 0.8 and V.bytes:
            if len(V.__dict__.setdefault('keys', ())) != len(V.bytes):
                V.keys = list(V.bytes)
            k = rnd.choice(V.keys)
            W.bytes[k] = rnd.choice([W.bytes[k] ^ 1 << rnd.randrange(8), W.bytes[k] ^ 1 << rnd.randrange(8), rnd.randrange(256), 0, 255])
        elif r < 0.88 and V.fl:
            k = rnd.choice(list(V.fl))
            W.fl[k] = rnd.choice(NICE + [rnd.uniform(-1e3, 1e3), -W.fl[k], W.fl[k] + 1])
            if k in W.par:
                W.par[k] = W.fl[k]
        elif r < 0.94 and W.uf:
            del W.uf[rnd.choice(list(W.uf))]
            W.salt = '%d' % rnd.randrange(1 << 30)
        elif W.par:
            k = rnd.choice(list(W.par))
            if k not in W.fl:
                del W.par[k]
    return W


WEIGHT = {'new': 3, 'steer': 1, 'near': 1.5, 'mut': 1, 'fld': 1}     # cost of a unit of time


def differ(A, B, pairs, gA=None, gB=None, n=400, seed=1, secs=20, TA=None, TB=None, maxv=4):
    """valuations on which root ra of A and rb of B differ (both guards holding)
    pairs: [(name, ra, rb)] -> {name: witness}"""
    rnd = random.Random(seed)
    gsA = [gA] if gA is not None else []
    gsB = [gB] if gB is not None else []
    RA, RB = [a for _, a, b in pairs], [b for _, a, b in pairs]
    pool = consts(A, RA + gsA)
    for k, v in consts(B, RB + gsB).items():
        pool.setdefault(k, set()).update(v)
    pool = {k: sorted(v) for k, v in pool.items()}
    lv = {}
    seenA, seenB = set(), set()
    for S, rs, seen in ((A, RA + gsA, seenA), (B, RB, seenB)):
        for r in rs:
            for i in support(S, r, seen):
                lv.setdefault(S.hash[i], (S, i))
    leaves = list(lv.values())
    flds = fields_of(((A, RA + gsA), (B, RB + gsB)), pool)
    sides = {}

    def diffs(j):
        if j not in sides:
            _, a, b = pairs[j]
            hA, hB = set(A.hash[i] for i in cone(A, [a])), set(B.hash[i] for i in cone(B, [b]))
            DA, DB = Diff(A, [a], hB), Diff(B, [b], hA)
            noA, noB = (TA.noabort() if TA else []), (TB.noabort() if TB else [])
            sides[j] = [(D, g, no) for D, g, no in ((DA, gsA, noA), (DB, gsB, noB)) if D.front]
        return sides[j]
    t0 = time.time()
    found, wit = {}, {}
    bases = []
    t = 0
    spent = dict.fromkeys(WEIGHT, 0)
    mode, tm = None, t0
    while time.time() - t0 <= secs and t < n:
        left = [j for j in range(len(pairs)) if pairs[j][0] not in found]
        if not left or len(found) >= maxv:
            break
        # the ways of making a valuation share the time (counted in coarse units, for repeatability)
        now = time.time()
        if mode is not None:
            spent[mode] += max(0.25 if mode == 'fld' else 1, round((now - tm) * 30)) * WEIGHT[mode]
        tm = now
        mode = min([m for m in WEIGHT if m != 'fld' or flds] if bases else ('new', 'steer'), key=lambda m: spent[m])
        t += 0.1 if mode == 'mut' else 0.03 if mode == 'fld' else 1
        if mode in ('mut', 'near'):
            sd = diffs(rnd.choice(left)) if mode == 'near' else None
            V = mutate(max((rnd.choice(bases) for _ in range(2)), key=lambda x: len(x.log)), rnd, leaves, pool, 0 if sd else None)
            if sd:
                D, g, no = rnd.choice(sd)
                V.deadline = min(t0 + secs, now + 1.0)
                try:
                    steer(D, rnd.choice(D.front), V, rnd, g, no)
                except Late:
                    pass
                except Undef:
                    continue
            V.deadline = t0 + secs
            if gA is not None and ev3(A, gA, V, Env()) is False:
                continue
            if gB is not None and ev3(B, gB, V, Env()) is False:
                continue
        else:
            V = Val(rnd)
            V.cache = {}
            # seed leaves from the pools
            sub = leaves if len(leaves) < 120 else rnd.sample(leaves, 120)
            for S, i in sub:
                p = pool.get(S.hash[i])
                if p and rnd.random() < 0.6:
                    try:
                        setleaf(S, i, rnd.choice(p), V, Env())
                    except Undef:
                        pass
            if mode == 'fld' or flds and rnd.random() < 0.3:
                use_fields(V, flds, rnd, sub)
            if mode == 'steer':
                sd = diffs(rnd.choice(left))
                if sd:
                    D, g, no = rnd.choice(sd)
                    V.deadline = min(t0 + secs, now + 1.0)
                    try:
                        steer(D, rnd.choice(D.front), V, rnd, g, no)
                    except Late:
                        pass
            V.deadline = t0 + secs
            if gA is not None and satisfy(A, gA, V, rnd, pool, 60, t0 + secs) is False:
                continue
            if gB is not None and ev3(B, gB, V, Env()) is False:
                if satisfy(B, gB, V, rnd, pool, 20, t0 + secs) is False:
                    continue
                if gA is not None and ev3(A, gA, V, Env()) is False:
                    continue
        eA, eB = Env(), Env()
        V.log = {}
        good = False
        ab = None
        for j in left:
            r, a, b = pairs[j]
            eA.fuel = eB.fuel = 6000
            try:
                x = evaltol(A, a, V, eA)
            except Undef:
                continue
            try:
                y = evaltol(B, b, V, eB)
            except Uninit:
                if A.und[a]:
                    continue
                y = None
            except Undef:
                continue
            good = True
            if y is not None and close(x, y):
                continue
            # where the function does not return its outputs do not matter
            if ab is None:
                ab = TA is not None and TA.aborts(V) is not False or TB is not None and TB.aborts(V) is not False
            if ab:
                break
            w = {'valuation': describe(A, a, V), 'spec': repr(x)[:80], 'code': 'an uninitialised value' if y is None else repr(y)[:80]}
            if r in wit or y is not None and not isinstance(x, float) and not isinstance(y, float) or not leaves:
                found[r] = w
            else:
                wit[r] = w
        if not good or ab:
            V.log = None
        else:
            # valuations that read more of the input are better starting points
            if len(bases) < 16:
                bases.append(V)
            else:
                j = min((rnd.randrange(16) for _ in range(4)), key=lambda q: len(bases[q].log))
                if rnd.random() < 0.1 or len(V.log) > len(bases[j].log):
                    bases[j] = V
    return found
