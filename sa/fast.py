"""Recurrences of fold nodes compiled to Python code.

A fold body is evaluated once per iteration; its nodes are turned into expressions (nodes used
more than once into functions with a per-iteration memo).  Whenever something is not decided by
plain arithmetic (a value that is unknown, a comparison within rounding distance ...) the
compiled code raises, and the iteration is evaluated again by the interpreter of summary.py."""
import math


class Slow(Exception):
    pass


class U:
    pass


ERR = (Slow, ZeroDivisionError, OverflowError, ValueError, TypeError, RecursionError)
BIN = {'and': '&', 'or': '|', 'xor': '^', 'mul': '*', 'fmul': '*', 'udiv': '//', 'urem': '%', 'fdivv': '/'}


def FC(v):
    if v != 0 and -1 < v < 1:
        raise Slow
    return v


def step(x, half):
    if isinstance(x, float):
        d = x - 0.5 if half else x
        d = abs(d - round(d)) if abs(d) < 1e16 else 0
        if d and d < 0.05:
            raise Slow
    return x


def rnd(x):
    return float(math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1))


class Code:
    """compiled terms of one fold"""

    def __init__(s, S, fi, mod):
        s.S, s.fi, s.mod = S, fi, mod
        n = S.nodes[fi]
        s.d, s.k = n[1], n[2]
        s.L = s.d + 1
        s.src = {}
        s.cnt = 1 + s.k
        s.slot = {}
        s.G = {'U': U, 'Slow': Slow, 'FC': FC, 'step': step, 'rnd': rnd, 'INF': float('inf'), 'math': math,
               'E': mod.evaluate, 'S': S, 'tv': mod.tval, 'bits': mod.bitsval, 'ins': mod.insval, 'K': []}
        s.refs = {}
        s.fns = {}

    def count(s, roots):
        refs = {}
        todo = list(roots)
        seen = set()
        while todo:
            i = todo.pop()
            refs[i] = refs.get(i, 0) + 1
            if i in seen or s.S.lv[i] != s.L:
                continue
            seen.add(i)
            if s.S.nodes[i][0] in ('kx', 'mx', 'atv', 'sa', 'fold'):
                continue
            todo += [x.i for x in s.S.nodes[i] if hasattr(x, 'i')]
        return refs

    def func(s, roots):
        """-> f(m, V, env) giving the tuple of the values of the roots"""
        key = tuple(roots)
        f = s.fns.get(key)
        if f is None:
            refs = s.count(roots)
            shared = {i for i, c in refs.items() if c > 1 or i in s.slot}
            out = []
            todo = []
            ex = [s.expr(r, shared, todo, out) for r in roots]
            nm = 'g%d' % len(s.fns)
            out.append('def %s(m, V, env):\n return (%s)' % (nm, ''.join(e + ', ' for e in ex)))
            exec('\n'.join(out), s.G)
            f = s.fns[key] = s.G[nm]
        return f

    def expr(s, i, shared, todo, out, d=0):
        S = s.S
        n = S.nodes[i]
        op = n[0]
        if op == 'c':
            return s.lit(n[1])
        if op == 'T' or op == 'F':
            return str(op == 'T')
        if S.lv[i] != s.L:
            return 'E(S, %d, V, env)' % i
        if op == 'kv':
            return 'm[0]'
        if op == 'mv':
            return 'm[%d]' % (1 + n[2])
        if i in s.slot:
            j = s.slot[i]
            return '(m[%d] if m[%d] is not U else f%d(m, V, env))' % (j, j, i)
        if i in shared or d > 12:
            j = s.slot[i] = s.cnt
            s.cnt += 1
            e = s.raw(i, n, op, shared, todo, out, 0)
            out.append('def f%d(m, V, env):\n v = m[%d] = %s\n return v' % (i, j, e))
            return '(m[%d] if m[%d] is not U else f%d(m, V, env))' % (j, j, i)
        return s.raw(i, n, op, shared, todo, out, d + 1)

    def lit(s, v):
        if isinstance(v, int):
            return repr(v) if v >= 0 else '(%r)' % v
        s.G['K'].append(v)
        return 'K[%d]' % (len(s.G['K']) - 1)

    def raw(s, i, n, op, shared, todo, out, d):
        R = lambda x: s.expr(x.i, shared, todo, out, d)
        if op == 'lin':
            t = [s.lit(n[2])]
            for j in range(3, len(n), 2):
                t.append(R(n[j]) if n[j + 1] == 1 and isinstance(n[j + 1], int) else '%s*%s' % (s.lit(n[j + 1]), R(n[j])))
            return '(%s)' % ' + '.join(t)
        if op == 'rng':
            x = R(n[3])
            lo, hi = n[1], n[2]
            if lo == -float('inf'):
                return '(%s <= %s)' % (x, s.lit(hi))
            if hi == float('inf'):
                return '(%s >= %s)' % (x, s.lit(lo))
            return '(%s <= %s <= %s)' % (s.lit(lo), x, s.lit(hi))
        if op == 'ne':
            return '(%s != %s)' % (R(n[2]), s.lit(n[1]))
        if op in ('flt', 'fle', 'feq'):
            return '(FC(%s) %s 0)' % (R(n[1]), {'flt': '<', 'fle': '<=', 'feq': '=='}[op])
        if op in ('and', 'or'):
            return '(%s)' % (' %s ' % op).join('bool(%s)' % R(x) if s.S.nodes[x.i][0] not in ('rng', 'ne', 'not', 'b', 'and', 'or', 'flt', 'fle', 'feq') else R(x) for x in n[1:])
        if op == 'not':
            return '(not %s)' % R(n[1])
        if op == 'b':
            return 'bool(%s)' % R(n[1])
        if op == 'ite':
            return '(%s if %s else %s)' % (R(n[2]), R(n[1]), R(n[3]))
        if op == 'ins':
            return 'ins(V, %r, %r, %s, %r, %s)' % (n[1], n[2], s.lit(n[3]) if n[3] is not None else 'None', bool(n[5]), R(n[6])) if n[4] != 1 else 'E(S, %d, V, env)' % i
        if op in ('bits', 'sbits'):
            return 'bits(V, %r, %s, %s, %r)' % (n[1], R(n[2]), R(n[3]), op == 'sbits')
        if op == 'tbl' and len(n[1]) > 8:
            nm = 'T%d' % i
            s.G[nm] = {x: v for x, sz, v in n[1] if v is not None}
            if len(s.G[nm]) == len(n[1]):
                return '%s.get(%s, %s)' % (nm, R(n[4]), '0.0' if n[3] else '0')
        if op.startswith('t:'):
            o = op[2:]
            ks = n[5:]
            if o == 'ite':
                return '(%s if %s else %s)' % (R(ks[1]), R(ks[0]), R(ks[2]))
            if o == 'mod':
                return '(%s %% %s)' % (R(ks[0]), s.lit(n[1][0]))
            if o == 'fdiv':
                return '(%s // %s)' % (R(ks[0]), s.lit(n[1][0]))
            if o in BIN:
                return '(%s %s %s)' % (R(ks[0]), BIN[o], R(ks[1]))
            if o == 'i2f':
                return 'float(%s)' % R(ks[0])
            if o == 'shl':
                return '(%s << min(%s, 200))' % (R(ks[0]), R(ks[1]))
            if o in ('lshr', 'ashr'):
                return '(%s >> min(%s, 200))' % (R(ks[0]), R(ks[1]))
            if o in ('f2i', 'ftrunc'):
                return 'int(step(%s, False))' % R(ks[0])
            if o == 'round':
                return 'rnd(step(%s, True))' % R(ks[0])
            if o == 'fspecial' or not ks:
                return 'E(S, %d, V, env)' % i
            s.G['K'].append(n)
            half = 'True' if o in ('round', 'rint') else 'False'
            wrap = (lambda e: 'step(%s, %s)' % (e, half)) if o in s.mod.STEPS else (lambda e: e)
            return 'tv(K[%d], V, (%s,))' % (len(s.G['K']) - 1, ', '.join(wrap(R(x)) for x in ks))
        return 'E(S, %d, V, env)' % i

    def frame(s, k, vals):
        return [k, *vals] + [U] * (s.cnt - 1 - s.k)
