"""Reference summaries: storage, readable form, (re)generation.

usage: spec.py gen [regex]     write spec/<function>.json(.txt) from the current tree
"""
import gzip, json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import summary
from summary import Sum, show_node, Ref

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def path(name):
    return os.path.join(DIR, name + '.json.gz')


def have(name):
    return os.path.exists(path(name))


def prune(S):
    """drop outputs that are not exact, keep only reachable nodes"""
    mu = {}
    drop = [r for r, i in S.roots.items() if (r.startswith('ret') or r.startswith('out:') or r == 'ok') and not summary.useful(S, i, mu)]
    roots = {r: i for r, i in S.roots.items() if r not in drop}
    # event contents that are not exact become the wildcard
    meta = dict(S.meta)
    meta['opaque'] = sorted(drop)
    ev = []
    for j, e in enumerate(meta.get('events', [])):
        keep = []
        for n in e[3]:
            k = 'ev%d:c%s' % (j, n)
            if not summary.useful(S, roots[k], mu):
                del roots[k]
            else:
                keep.append(n)
        ev.append([e[0], e[1], e[2], keep])
    meta['events'] = ev
    seen, order = {}, []
    import itertools

    def visit(r):
        st = [(r, 0)]
        while st:
            i, ph = st.pop()
            if i in seen:
                continue
            if ph:
                seen[i] = len(order)
                order.append(i)
                continue
            st.append((i, 1))
            for x in S.nodes[i]:
                if isinstance(x, Ref) and x.i not in seen:
                    st.append((x.i, 0))
    for r in roots.values():
        visit(r)
    nodes = [tuple(Ref(seen[x.i]) if isinstance(x, Ref) else x for x in S.nodes[i]) for i in order]
    T = Sum(nodes, {r: seen[i] for r, i in roots.items()}, [S.hash[i] for i in order], [S.opq[i] for i in order], [S.und[i] for i in order], meta)
    return T


def text(S, width=400):
    out = []
    for r, i in S.roots.items():
        if not r.startswith('ev') and not r.startswith('lp'):
            out.append('%s = %s' % (re.sub(r'@.*', '', r), show_node(S, i)[:width]))
    for j, e in enumerate(S.meta.get('events', [])):
        out.append('event %d: %s %s(%s)%s' % (j, e[0], e[1], ', '.join(show_node(S, S.roots['ev%d:a%d' % (j, i)])[:80] for i in range(e[2])),
                                         '  when ' + show_node(S, S.roots['ev%d:g' % j])[:width]))
        for c in e[3][:60]:
            out.append('    .%s = %s' % (c.split('@')[0], show_node(S, S.roots['ev%d:c%s' % (j, c)])[:120]))
    if S.meta.get('opaque'):
        out.append('not exact (not compared): ' + ' '.join(re.sub(r'@.*', '', x) for x in S.meta['opaque'])[:1500])
    return '\n'.join(out) + '\n'


def load(name):
    with gzip.open(path(name), 'rt') as f:
        d = json.load(f)
    S = Sum.from_json(d['sum'])
    S.sig = d.get('sig')
    S.cuts = d.get('cuts', {})
    S.mods = {n: [None if m is None else [tuple(x) for x in m] for m in ms] for n, ms in d.get('mods', {}).items()}
    return S


def save(name, S, sig, cutsigs, mods):
    os.makedirs(DIR, exist_ok=True)
    T = prune(S)
    data = json.dumps({'sum': T.to_json(), 'sig': sig, 'cuts': cutsigs, 'mods': mods})
    with open(path(name), 'wb') as f:
        f.write(gzip.compress(data.encode(), 9, mtime=0))
    return T


def di_sig(prog, fn):
    """parameter and result types as recorded in the debug information"""
    from driver import di_params
    import cuts
    out = []
    for d in [cuts.ret_di(prog, fn)] + di_params(prog, fn):
        if d is None:
            out.append('-')
            continue
        nm = ''
        while d is not None and d[1].get('tag') == 'DW_TAG_pointer_type':
            nm += '*'
            d = prog.ditype(fn.mod, d[1].get('baseType'))
        if d is None:
            out.append(nm + 'void')
        else:
            out.append(nm + str(d[1].get('name', d[0])).strip('"') + ':' + str(d[1].get('size', '')))
    return out


def externs(prog):
    """names of the external functions the program calls"""
    out = set()
    for m in prog.mods:
        for f in m.funcs.values():
            for b in f.blocks.values():
                for i in b.ins:
                    c = i.x.get('callee') if isinstance(i.x, dict) else None
                    if c and c[0] == 'glob':
                        g = prog.func(m, c[1])
                        if (g is None or not g.blocks) and not c[1].startswith('llvm.'):
                            out.add(c[1])
    return sorted(out)


def vocab():
    p = os.path.join(DIR, 'vocab.txt')
    return set(open(p).read().split()) if os.path.exists(p) else None


def gen_one(name):
    from extract import extract
    import config, modref
    from driver import program
    prog = program()
    t = time.time()
    try:
        S, x, it = extract(name, seconds=200, **config.opts(prog, name))
    except BaseException as e:
        return name, None, '%s %s' % (type(e).__name__, str(e)[:200])
    used = sorted(set(e[1] for e in S.meta['events'] if e[0] == 'call') & set(config.cuttable(prog)))
    pure = [n for n, p in config.cuttable(prog).items() if p]
    T = save(name, S, di_sig(prog, prog.find(name)), {n: di_sig(prog, prog.find(n)) for n in used + pure},
             {n: [modref.mods(prog, prog.find(n), i) for i in range(len(prog.find(n).params))] for n in used})
    os.makedirs(os.path.join(DIR, 'text'), exist_ok=True)
    with open(os.path.join(DIR, 'text', name + '.txt'), 'w') as f:
        f.write(text(T))
    return name, T, '%d nodes %.1fs' % (len(T.nodes), time.time() - t)


def main():
    import multiprocessing as mp
    import config, props
    from driver import program
    prog = program()
    names = sorted(set(n for p in props.PROPS.values() for n in props.roots(prog, p)))
    with open(os.path.join(DIR, 'vocab.txt'), 'w') as f:
        f.write('\n'.join(externs(prog)) + '\n')
    if len(sys.argv) > 2:
        names = [n for n in names if re.search(sys.argv[2], n)]
    with mp.Pool(8, maxtasksperchild=1) as pool:
        for n, T, msg in pool.imap_unordered(gen_one, names):
            if T is None:
                print('FAILED', n, msg)
            elif float(msg.split()[-1][:-1]) > 15:
                print(n, msg)
    print(len(names), 'functions')


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
