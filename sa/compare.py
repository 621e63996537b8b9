"""Compare an extracted summary with the reference one.

Equal canonical terms are equal.  Unequal terms are a violation only when both are
exact and a valuation of the inputs exists on which they disagree; anything else is
counted as undecided."""
import random, time
from summary import *
from summary import evpool, Env, evaluate, iterate, satisfy, consts, support, close, Unknown, Uninit, Undef, ev3, allfalse, useful
import search
from search import Val, differ


def parse_root(r):
    """'out:a0.x[1].y@off:size:enc' -> (label, field, off, size, enc)"""
    lab, rest = r[4:].split('.', 1) if not r.startswith('out:(') else (r[4:r.rindex('*') + 1], r[r.rindex('*') + 2:])
    nm, tail = rest.rsplit('@', 1)
    off, size, enc = tail.split(':', 2)
    return lab, nm, int(off), int(size), enc


def default_node(S, root):
    """the unmodified input field as a node appended to S"""
    lab, nm, off, size, enc = parse_root(root)
    if enc == 'ptr':
        return None
    isf = enc == 'DW_ATE_float'
    sg = 'signed' in enc and 'unsigned' not in enc
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if sg else (0, 1 if enc == 'DW_ATE_boolean' else (1 << 8 * size) - 1)
    S.nodes.append(('in', lab, nm, off, size, None if isf else lo, None if isf else hi, isf))
    S.hash.append('dflt' + root)
    S.opq.append(False)
    S.und.append(False)
    S.fr.append(frozenset())
    S.lv.append(0)
    return len(S.nodes) - 1


def seed_leaves(rnd, pool, leaves, V):
    for S, i in leaves:
        p = pool.get(S.hash[i])
        if p and rnd.random() < 0.6:
            try:
                setleaf(S, i, rnd.choice(list(p)), V, Env())
            except Undef:
                pass


def pool_of(*pairs):
    pool = {}
    for S, rs in pairs:
        for k, v in consts(S, rs).items():
            pool.setdefault(k, set()).update(v)
    return pool


def isret(r):
    return r == "ret" or r.startswith("ret.")


class Trace:
    """evaluates the event sequence of a summary on a valuation"""

    def __init__(s, S):
        s.S = S
        s.ev = S.meta.get('events', [])
        s.tree = S.meta.get('trace', list(range(len(s.ev))))
        r = S.roots
        s.g = [r['ev%d:g' % j] for j in range(len(s.ev))]
        s.a = [[r['ev%d:a%d' % (j, i)] for i in range(e[2])] for j, e in enumerate(s.ev)]
        s.c = [[(n, r['ev%d:c%s' % (j, n)]) for n in e[3]] for j, e in enumerate(s.ev)]
        s.lp = [r[k] for k in r if k.startswith('lp')]
        s.exact = not any(S.opq[x] or S.und[x] for x in s.g) and not any(S.opq[x] for x in s.lp)
        s.opqarg = any(S.opq[x] for aa in s.a for x in aa)

    def sig(s):
        S = s.S
        return [(e[0], e[1], S.hash[g], tuple(S.hash[x] for x in a), tuple((n, S.hash[x]) for n, x in c))
                for e, g, a, c in zip(s.ev, s.g, s.a, s.c)], str(s.tree), [S.hash[x] for x in s.lp]

    def run(s, V, limit=4000):
        """-> (events, bits, unknown): unknown = groups of events the valuation leaves undecided
        (None: nothing undecided); events after an undecided abort are all undecided"""
        out, bits = [], {}
        env = Env()
        S = s.S
        n = [0]
        unk = set()

        def val(i):
            env.fuel = max(env.fuel, 6000)
            try:
                return evaltol(S, i, V, env)
            except Uninit:
                return 'UNINITIALISED'
            except Undef:
                return '*'

        class Stop(Exception):
            pass

        def blank(t):
            """everything in here may or may not happen"""
            if isinstance(t, list):
                for x in t[1]:
                    blank(x)
                return
            k, nm = s.ev[t][:2]
            unk.add((k, nm))

        def one(t, maybe):
            if isinstance(t, list):
                lp = S.nodes[S.roots[t[0]]]
                if lp[0] != 'fold':
                    return blank(t)
                o0, b0 = len(out), dict(bits)
                try:
                    iterate(S, lp, V, env, lambda: [one(x, maybe) for x in t[1]])
                except Unknown:
                    blank(t)
                return
            n[0] += 1
            if n[0] > limit or n[0] % 16 == 0 and time.time() > V.deadline:
                raise Undef()
            env.fuel = max(env.fuel, 6000)
            k, nm = s.ev[t][0], s.ev[t][1]
            g = ev3(S, s.g[t], V, env)
            if g is None and not maybefalse(S, s.g[t], V, env):
                unk.add((k, nm))
            elif not g:
                return
            if k == 'abort':
                if g is None:
                    return
                out.append(('abort', '', (), (), True))
                raise Stop()
            args = [val(x) for x in s.a[t]]
            if k == 'bitset':
                pos, ln, v = args
                if isinstance(pos, str) or isinstance(ln, str):
                    bits[(nm, '*')] = 1
                    return
                if not (0 <= pos < 1 << 17 and 0 < ln <= 64):
                    return
                for i in range(ln):
                    bits[(nm, pos + i)] = '*' if isinstance(v, str) or g is None else (int(v) >> (ln - 1 - i)) & 1
                return
            out.append((k, nm, tuple(args), tuple((nn, val(x)) for nn, x in s.c[t]), bool(g)))
        try:
            for t in s.tree:
                one(t, False)
        except Stop:
            pass
        return out, bits, unk

    def aborts(s, V):
        """does execution abort on this valuation (None: not known)"""
        if not any(e[0] == 'abort' for e in s.ev):
            return False
        S = s.S
        env = Env()
        res = [False]

        def one(t):
            if isinstance(t, list):
                if not s.hasabort(t):
                    return
                lp = S.nodes[S.roots[t[0]]]
                if lp[0] != 'fold':
                    res[0] = None if res[0] is False else res[0]
                    return
                try:
                    iterate(S, lp, V, env, lambda: [one(x) for x in t[1]])
                except Undef:
                    res[0] = None if res[0] is False else res[0]
                return
            if s.ev[t][0] != 'abort':
                return
            try:
                g = ev3(S, s.g[t], V, env)
            except Undef:
                g = None
            if g:
                res[0] = True
            elif g is None and res[0] is False and not maybefalse(S, s.g[t], V, env):
                res[0] = None
        try:
            for t in s.tree:
                one(t)
        except Undef:
            return res[0] or None
        return res[0]

    def hasabort(s, t):
        if isinstance(t, list):
            return any(s.hasabort(x) for x in t[1])
        return s.ev[t][0] == 'abort'

    def noabort(s):
        """conditions (to be false) of the aborts outside of loops"""
        return [s.g[t] for t in s.tree if not isinstance(t, list) and s.ev[t][0] == 'abort']

    def unique(s):
        """groups with one event that is not inside a loop"""
        c = {}
        for e in s.ev:
            c[tuple(e[:2])] = c.get(tuple(e[:2]), 0) + 1
        top = set(tuple(s.ev[t][:2]) for t in s.tree if not isinstance(t, list))
        return set(k for k in c if c[k] == 1 and k in top)


def maybefalse(S, g, V, env):
    return allfalse(S, g, V, env)


def same_trace(A, B):
    if str(A.tree) != str(B.tree) or len(A.ev) != len(B.ev):
        return False
    ha, hb = A.S.hash, B.S.hash
    if [ha[x] for x in A.lp] != [hb[x] for x in B.lp]:
        return False
    for j in range(len(A.ev)):
        if A.ev[j][:2] != B.ev[j][:2] or len(A.a[j]) != len(B.a[j]) or ha[A.g[j]] != hb[B.g[j]]:
            return False
        if any(ha[x] != hb[y] for x, y in zip(A.a[j], B.a[j])):
            return False
        cb = dict(B.c[j])
        for n, x in A.c[j]:
            if n in cb and ha[x] != hb[cb[n]]:
                return False
    return True


def tuple_close(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x in ('*', 'UNINITIALISED') or y == '*' or x == y
    return close(x, y)


def ev_diff(a, b):
    if len(a[2]) != len(b[2]):
        return 'argument count of %s %s' % a[:2]
    for j, (p, q) in enumerate(zip(a[2], b[2])):
        if not tuple_close(p, q):
            return '%s %s argument %d is %s, reference %s' % (a[0], a[1], j, q, p)
    da, db = dict(a[3]), dict(b[3])
    for n in da:
        if n in db and not tuple_close(da[n], db[n]):
            return '%s %s content %s is %s, reference %s' % (a[0], a[1], n, db[n], da[n])
    return None


def seq_diff(ox, oy):
    for i in range(max(len(ox), len(oy))):
        if i >= len(ox) or i >= len(oy):
            e = (ox if i < len(ox) else oy)[i]
            return i, '%s %s %s' % ('missing' if i >= len(oy) else 'additional', e[0], e[1])
        a, b = ox[i], oy[i]
        if a[:2] != b[:2]:
            return i, '%s %s instead of %s %s' % (b[0], b[1], a[0], a[1])
        t = ev_diff(a, b)
        if t:
            return i, t
    return None


def trace_diff(x, y, unique=()):
    """None if equal, else (index, text)"""
    (ox, bx, ux), (oy, by, uy) = x, y
    un = ux | uy
    if not un:
        d = seq_diff(ox, oy)
        if d:
            return d
    elif ('abort', '') in un or any(e[0] == 'abort' for e in ox + oy):
        # it is not known how far execution gets: events present in both must still agree
        for g in unique:
            ex, ey = [e for e in ox if e[:2] == g], [e for e in oy if e[:2] == g]
            if len(ex) == 1 and len(ey) == 1:
                t = ev_diff(ex[0], ey[0])
                if t:
                    return 0, t
        return None
    else:
        for g in dict.fromkeys(e[:2] for e in ox + oy):
            ex, ey = [e for e in ox if e[:2] == g], [e for e in oy if e[:2] == g]
            if g not in un:
                d = seq_diff(ex, ey)
                if d:
                    return d
            elif g in unique:
                if len(ex) == 1 and len(ey) == 1:
                    t = ev_diff(ex[0], ey[0])
                    if t:
                        return 0, t
                elif len(ex) + len(ey) == 1 and (ex + ey)[0][4]:
                    return 0, '%s %s %s' % ('missing' if ex else 'additional', g[0], g[1])
    if any(k[1] == '*' for k in bx) or any(k[1] == '*' for k in by) or any(k[0] == 'bitset' for k in un):
        return None
    if bx != by:
        for k in sorted(set(bx) | set(by)):
            p, q = bx.get(k), by.get(k)
            if p != q and p != '*' and q != '*':
                return k[1], 'encoded bit %d of %s is %s, reference %s' % (k[1], k[0], q, p)
    return None


class EvDiff(search.Diff):
    """differences below the guards, arguments and contents of the events"""

    def __init__(s, Tr, other):
        s.own = {}
        S = Tr.S

        def walk(ts, st):
            for t in ts:
                if isinstance(t, list):
                    f = S.roots[t[0]]
                    s.own.setdefault(f, []).append(((), st))
                    walk(t[1], None if st is None or S.nodes[f][0] != 'fold' else st + (f,))
                else:
                    cs = [(S.nodes[f][3].i, True, st[:k]+(f,)) for k, f in enumerate(st)] if st is not None else []
                    s.own.setdefault(Tr.g[t], []).append((cs, st))
                    cs = cs + [(Tr.g[t], True, st)]
                    for x in Tr.a[t] + [x for _, x in Tr.c[t]]:
                        s.own.setdefault(x, []).append((cs, st))
        walk(Tr.tree, ())
        search.Diff.__init__(s, S, list(s.own), set(other.hash))

    def init(s, root, rnd):
        cs, st = rnd.choice(s.own[root])
        return None if st is None else (list(cs), st)


class Result:
    def __init__(s):
        s.ok = s.und = 0
        s.viol = []     # (what, text, witness)
        s.undecided = []


def compare(S0, S1, budget=25, n=300, seed=1, maxv=4, roots=None, R=None):
    R = R or Result()
    t0 = time.time()
    evpool(S0, S1)
    if S0.meta.get('sizes') != S1.meta.get('sizes'):
        R.und += 1
        R.undecided.append('structure layout changed')
        return R
    g0, g1 = S0.roots.get('ok'), S1.roots.get('ok')
    names = [r for r in dict.fromkeys(list(S0.roots) + list(S1.roots)) if isret(r) or r.startswith('out:')]
    bad = []
    opq0 = set(S0.meta.get('opaque', ()))
    mu0, mu1 = {}, {}
    A, B = Trace(S0), Trace(S1)
    for r in names:
        if roots is not None and not roots(r):
            continue
        a, b = S0.roots.get(r), S1.roots.get(r)
        if r in opq0:
            R.und += 1
            continue
        if a is not None and b is not None and S0.hash[a] == S1.hash[b]:
            if S0.opq[a]:
                R.und += 1
            else:
                R.ok += 1
            continue
        bad.append(r)
    todo = []
    for r in bad:
        a, b = S0.roots.get(r), S1.roots.get(r)
        if a is None:
            a = default_node(S0, r) if not isret(r) else None
        if b is None:
            b = default_node(S1, r) if not isret(r) else None
        if a is None or b is None:
            R.und += 1
            R.undecided.append(r + ': no counterpart')
            continue
        if not useful(S0, a, mu0) or not useful(S1, b, mu1) and not (S1.und[b] and not S1.opq[b]):
            R.und += 1
            R.undecided.append(r + ': not exact')
            continue
        todo.append((r, a, b))
    found = {}
    for part, (ga, gb) in (([x for x in todo if isret(x[0])], (None, None)), ([x for x in todo if not isret(x[0])], (g0, g1))):
        rest = budget - (time.time() - t0)
        if part and rest > 0:
            f = search.differ(S0, S1, part, ga, gb, n, seed, rest / 2 if isret(part[0][0]) and len(part) < len(todo) else rest, A, B, maxv)
            for r, a, b in part:
                if r in f:
                    R.viol.append((r, '%s is not the specified function of the inputs: specified %s, code %s' % (r.split('@')[0], show_node(S0, a)[:160], show_node(S1, b)[:160]), f[r]))
            found.update(f)
    todo = [x for x in todo if x[0] not in found]
    for r, a, b in todo:
        R.und += 1
        R.undecided.append(r + ': terms differ, no distinguishing valuation')
    # event traces
    if roots is not None and not roots('trace'):
        return R
    if same_trace(A, B):
        R.ok += len(A.ev)
        R.und += sum(1 for aa in A.a for x in aa if S0.opq[x]) + sum(1 for g in A.g if S0.opq[g])
        return R
    rnd = random.Random(seed)
    pool = pool_of((S0, A.g + [x for aa in A.a for x in aa] + A.lp), (S1, B.g + [x for aa in B.a for x in aa] + B.lp))
    targets = [(S0, g) for g in A.g if S0.lv[g] == 0] + [(S1, g) for g in B.g if S1.lv[g] == 0]
    h0 = set(S0.hash[g] for g in A.g)
    h1 = set(S1.hash[g] for g in B.g)
    new = [(S, g) for S, g in targets if (S.hash[g] not in h1 if S is S0 else S.hash[g] not in h0)]
    lv = {}
    for S, rs in ((S0, A.g + [x for aa in A.a for x in aa] + [x for cc in A.c for _, x in cc] + A.lp), (S1, B.g + [x for aa in B.a for x in aa] + [x for cc in B.c for _, x in cc] + B.lp)):
        seen = set()
        for x in rs:
            for i in support(S, x, seen):
                lv[S.hash[i]] = (S, i)
    leaves = list(lv.values())
    flds = fields_of(((S0, A.g + [x for aa in A.a for x in aa] + [x for cc in A.c for _, x in cc] + A.lp), (S1, B.g + [x for aa in B.a for x in aa] + [x for cc in B.c for _, x in cc] + B.lp)), pool)
    uq = A.unique() & B.unique()
    sides = [D for D in (EvDiff(A, S1), EvDiff(B, S0)) if D.front]
    wit = []
    t1 = tm = time.time()
    bases = []
    spent = dict.fromkeys(search.WEIGHT, 0)
    mode, t = None, 0
    pl = {k: sorted(v) for k, v in pool.items()}

    def front():
        D = rnd.choice(sides)
        for _ in range(6):
            f = rnd.choice(D.front)
            if not D.S.und[f] and not D.S.opq[f]:
                break
        return D, f
    while time.time() - t1 <= budget and t < n:
        # the ways of making a valuation share the time (see search.differ)
        now = time.time()
        if mode is not None:
            spent[mode] += max(0.25 if mode == 'fld' else 1, round((now - tm) * 30)) * search.WEIGHT[mode]
        tm = now
        mode = min([m for m in search.WEIGHT if (bases or m in ('new', 'steer', 'fld')) and (sides or m in ('new', 'mut', 'fld')) and (flds or m != 'fld')], key=lambda m: spent[m])
        t += 0.1 if mode == 'mut' else 0.03 if mode == 'fld' else 1
        if mode in ('mut', 'near'):
            V = search.mutate(max((rnd.choice(bases) for _ in range(2)), key=lambda x: x.score), rnd, leaves, pl, 0 if mode == 'near' else None)
        else:
            V = Val(rnd)
            V.cache = {}
            sub = leaves if len(leaves) < 80 else rnd.sample(leaves, 80)
            seed_leaves(rnd, pool, sub, V)
            if mode == 'fld' or flds and rnd.random() < 0.3:
                use_fields(V, flds, rnd, sub)
        V.deadline = min(t1 + budget, now + 1.5)
        try:
            if mode in ('steer', 'near'):
                try:
                    search.steer(*front(), V, rnd)
                except search.Late:
                    pass
            elif mode == 'new' and targets and rnd.random() < 0.9:
                S, g = rnd.choice(new) if new and rnd.random() < 0.6 else rnd.choice(targets)
                satisfy(S, g, V, rnd, pool, 40)
            V.deadline = min(t1 + budget, time.time() + 1.5)
            V.log = {}
            x, y = A.run(V), B.run(V)
        except Undef:
            continue
        V.score = len(V.log) + 10 * len(set(e[:2] for e in x[0])) + 10 * min(len(x[0]), 10)
        if len(bases) < 16:
            bases.append(V)
        else:
            j = min((rnd.randrange(16) for _ in range(4)), key=lambda q: bases[q].score)
            if rnd.random() < 0.1 or V.score > bases[j].score:
                bases[j] = V
        d = trace_diff(x, y, uq)
        if d:
            wit.append((d, V))
            if len(wit) >= 2:
                break
    if wit:
        (idx, text), V = wit[0]
        desc = {}
        for S, i in leaves[:40]:
            try:
                desc[show_node(S, i)[:60]] = repr(evaluate(S, i, V, Env()))[:40]
            except Exception:
                pass
        R.viol.append(('trace', 'observable sequence differs from the specified one: ' + text, {'valuation': desc}))
    else:
        R.und += 1
        R.undecided.append('trace: terms differ, no distinguishing valuation' + ('' if A.exact and B.exact else ' (not exact)'))
    return R
