"""Sensitivity measurement: mutate.py <worker> <count> <seed> [file-regex]
Mutates one line of a scratch copy at a time and reports what the conformance check says."""
import os, random, re, shutil, sys, time, json
W = int(sys.argv[1])
COUNT = int(sys.argv[2])
SEED = int(sys.argv[3])
FRE = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
ROOT = '/tmp/mut/w%d' % W
if os.path.isdir(ROOT + '/c'):
    shutil.rmtree(ROOT + '/c')
os.makedirs(ROOT, exist_ok=True)
shutil.copytree('/repo/c', ROOT + '/c', ignore=shutil.ignore_patterns('*.rtcm', '*.sbp', '*.ubx', 'tests', 'afl'))
os.environ['VERIF_REPO'] = ROOT
sys.path.insert(0, '/verif/sa')
import build, ir, driver, spec, props, config, check, compare

LL = ROOT + '/ll'
os.makedirs(LL, exist_ok=True)
prog = None


def load():
    models = [os.path.join(build.VERIF, 'stubs/models', f) for f in sorted(os.listdir(os.path.join(build.VERIF, 'stubs/models'))) if f.endswith('.c')]
    lls, _ = build.build(build.sources() + models, LL)
    p = ir.Program(lls)
    p.models = set(os.path.basename(m) for m in models)
    return p


prog = load()
rng = random.Random(SEED * 1000 + W)
srcs = [s for s in build.sources() if FRE.search(s) and not s.endswith('_main.c') and not s.endswith('_main.cc')]


def ops(line):
    """possible mutated versions of a line"""
    out = []
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', line):
        v = int(m.group(1), 0)
        for nv in {v + 1, v - 1 if v else 1, v * 2 if v > 1 else v}:
            if nv != v:
                out.append(line[:m.start()] + str(nv) + line[m.end():])
    for a, b in (('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), (' < ', ' <= '), (' > ', ' >= '), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), ('<< ', '>> '), (' & ', ' | '), ('true', 'false'), ('false', 'true'), ('+= ', '-= '), ('++', '--')):
        i = line.find(a)
        if i >= 0:
            out.append(line[:i] + b + line[i + len(a):])
    s = line.strip()
    if s.endswith(';') and not re.match(r'(const |static |u?int\d+_t |bool |double |float |size_t |char |u\d+ |s\d+ |struct |return|case|default|#|extern|typedef|using|\w+ \w+;|\w+ \w+ =)', s):
        if s.count('(') == s.count(')'):
            out.append(line[:len(line) - len(line.lstrip())] + ';\n')
    m = re.search(r'\b(\w+)->(\w+)', line)
    for a, b in (('_x', '_y'), ('.n', '.e'), ('min', 'max'), ('MIN', 'MAX'), ('L1', 'L2'), ('gps', 'glo'), ('GPS', 'GLO'), ('sin', 'cos'), ('u8', 's8'), ('uint16', 'int16')):
        i = line.find(a)
        if i >= 0:
            out.append(line[:i] + b + line[i + len(a):])
    return out


def callees(f):
    r = set()
    for b in f.blocks.values():
        for i in b.ins:
            def g(v):
                if isinstance(v, tuple):
                    if v and v[0] == 'glob':
                        r.add(v[1])
                    else:
                        for x in v:
                            g(x)
                elif isinstance(v, list):
                    for x in v:
                        g(x)
            g(i.a)
            if isinstance(i.x, dict):
                g(i.x.get('callee'))
    return r


def text_of(path):
    fs = {}
    cur = None
    for l in open(path):
        if l.startswith('define'):
            m = re.search(r'@"?([^"(]+)"?\(', l)
            cur = m.group(1)
            fs[cur] = []
        if cur:
            fs[cur].append(re.sub(r'!\d+', '!', l))
        if l.startswith('}'):
            cur = None
    g = [l for l in open(path) if l.startswith('@')]
    return fs, g


CALL = {}
for f in prog.all_funcs():
    CALL.setdefault(f.name, set()).update(callees(f))
CUT = config.cuttable(prog)
ALLROOTS = sorted(set(n for p in props.PROPS.values() for n in props.roots(prog, p)))


def closure(n):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x in seen or x not in CALL or (x != n and x in CUT):
            continue
        seen.add(x)
        todo += list(CALL[x])
    return seen


CLO = {n: closure(n) for n in ALLROOTS}


def mutant():
    for _ in range(200):
        s = rng.choice(srcs)
        lines = open(s, encoding='latin1').read().split('\n')
        k = rng.randrange(len(lines))
        l = lines[k]
        st = l.strip()
        if not st or st.startswith(('/', '*', '#', 'case', '}', 'log_', 'assert', 'printf', 'fprintf')) or 'log_' in st or 'static_assert' in st or 'assert' in st:
            continue
        o = ops(l)
        if not o:
            continue
        return s, k, l, rng.choice(o)


def child(path, name, changed, wr):
    prog2 = ir.Program.__new__(ir.Program)
    prog2.__dict__.update({'mods': [], 'ext': {}, 'extg': {}})
    mods = []
    for m in prog.mods:
        mods.append(ir.Module(path) if os.path.basename(m.path) == os.path.basename(path) else m)
    prog2.mods = mods
    for m in mods:
        for f in m.funcs.values():
            if not f.internal:
                prog2.ext.setdefault(f.name, f)
        for g in m.globals.values():
            if not g.internal and g.init is not None:
                prog2.extg.setdefault(g.name, g)
    prog2.models = prog.models
    driver._prog['p'] = prog2
    check.program = lambda: prog2
    import extract
    extract.program = lambda: prog2
    aff = [n for n in ALLROOTS if CLO[n] & changed and spec.have(n)]
    v, und, st = [], 0, {}
    t = time.time()
    for n in aff[:14]:
        if time.time() - t > 150:
            break
        r = check.conform(n)
        st[n] = r['status']
        und += r['und']
        if r['viol']:
            v.append((n, r['viol'][0][2], r['viol'][0][3][:160]))
            break
        if r['status'] in ('partial', 'engine', 'budget'):
            st[n] += ':' + ';'.join(r['note'])[:150]
    wr.write(json.dumps({'viol': v, 'aff': aff, 'st': st}))
    wr.flush()


base = {}
for m in prog.mods:
    base[os.path.basename(m.path)] = text_of(m.path)
done = 0
tot = {}
while done < COUNT:
    s, k, old, new = mutant()
    lines = open(s, encoding='latin1').read().split('\n')
    lines[k] = new.rstrip('\n')
    orig = open(s, 'rb').read()
    open(s, 'w', encoding='latin1').write('\n'.join(lines))
    try:
        os.makedirs(ROOT + '/mll', exist_ok=True)
        try:
            path = build.compile_one(s, ROOT + '/mll')
        except build.BuildError:
            continue
    finally:
        open(s, 'wb').write(orig)
    b = base[os.path.basename(path)]
    t = text_of(path)
    changed = set(n for n in t[0] if t[0][n] != b[0].get(n))
    if t[1] != b[1]:
        ch = ('g',)
        names = set(re.match(r'@"?([^" ]+)', l).group(1) for l in t[1]) & set()
        diff = [x for x, y in zip(t[1], b[1]) if x != y]
        gn = set(re.match(r'@"?([^" ]+)"?', l).group(1) for l in diff)
        for f in t[0]:
            if CALL.get(f, set()) & gn:
                changed.add(f)
    if not changed:
        continue
    done += 1
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            with os.fdopen(w, 'w') as wr:
                child(path, os.path.basename(s), changed, wr)
        except BaseException as e:
            pass
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as rd:
        out = rd.read()
    os.waitpid(pid, 0)
    try:
        o = json.loads(out)
    except ValueError:
        o = {'viol': [], 'aff': [], 'st': {'crash': ''}}
    verdict = 'CAUGHT' if o['viol'] else 'NOROOT' if not o['aff'] else 'MISSED' if all(x == 'equal' for x in o['st'].values()) else 'UNDEC'
    tot[verdict] = tot.get(verdict, 0) + 1
    print('%s %s:%d\n   - %s\n   + %s' % (verdict, s[len(ROOT) + 3:], k + 1, old.strip()[:120], new.strip()[:120]))
    if verdict == 'CAUGHT':
        print('   ', str(o['viol'][0])[:220])
    else:
        print('   ', sorted(changed)[:3], str(o['st'])[:500])
    sys.stdout.flush()
print(tot)
