"""check.py <property> [--tier quick|thorough]

Analyses the current tree (VERIF_REPO or /repo), compares every covered function with its
reference summary, applies the property's rules, writes the evidence file.
exit 0: no violation; 1: violation (with a VIOLATION line); 2: analysis broken."""
import json, multiprocessing as mp, os, re, signal, sys, time, traceback
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()
import driver
from driver import program
import props, config, spec, compare
import extract as ex
import rules

TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Late(BaseException):
    pass


def _late(*a):
    raise Late()


def conform(name, limit=None):
    """conform1 within a time limit"""
    if limit is None:
        limit = 200 if TIER == 'quick' else 600
    limit = int(min(limit, T0 + 780 - time.time()))
    if limit < 5:
        return {'name': name, 'ok': 0, 'und': 0, 'viol': [], 'note': ['no time left'], 'events': 0, 'outputs': 0, 'status': 'budget'}
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(limit)
    r = {}
    try:
        return conform1(name, r)
    except Late:
        r = dict({'name': name, 'ok': 0, 'und': 0, 'viol': [], 'note': [], 'events': 0, 'outputs': 0}, **r)
        R = r.pop('R', None)
        if R is not None:
            r['ok'], r['und'] = R.ok, R.und
            for what, txt, w in R.viol:
                r['viol'].append((r['where'], name, what, txt, w))
        r.pop('where', None)
        r['status'] = 'violated' if r['viol'] else 'budget'
        return r
    finally:
        signal.alarm(0)


def conform1(name, r):
    """-> dict(name, status, ok, und, viol=[(where, text, witness)], note)"""
    t = time.time()
    prog = program()
    r.update({'name': name, 'ok': 0, 'und': 0, 'viol': [], 'note': [], 'events': 0, 'outputs': 0})
    if not spec.have(name):
        r['status'] = 'no reference'
        return r
    fn = prog.find(name)
    if fn is None:
        r['status'] = 'absent'
        r['note'].append('function not in the program')
        return r
    S0 = spec.load(name)
    if S0.sig is not None and S0.sig != spec.di_sig(prog, fn):
        r['status'] = 'signature'
        r['note'].append('signature changed')
        return r
    for c, sg in S0.cuts.items():
        f = prog.find(c)
        if f is None or spec.di_sig(prog, f) != sg:
            r['status'] = 'boundary'
            r['note'].append('boundary function %s absent or with another signature' % c)
            return r
    f = fn.mod.src
    rel = os.path.relpath(f, driver.build.REPO)
    try:
        S1, x, it = ex.extract(name, seconds=250 if TIER == 'quick' else 500, **config.opts(prog, name, S0.mods))
    except ex.Budget:
        r['status'] = 'budget'
        return r
    except Exception as e:
        r['status'] = 'engine'
        r['note'].append('%s: %s' % (type(e).__name__, str(e)[:150]))
        return r
    r['outputs'] = len([k for k in S1.roots if k.startswith('out') or k.startswith('ret')])
    r['events'] = len(S1.meta.get('events', []))
    ln = '?'
    try:
        sp = fn.mod.md(fn.dbg)
        ln = sp[1].get('line')
    except Exception:
        pass
    r['where'] = '%s:%s' % (rel, ln)
    r['R'] = compare.Result()
    try:
        R = compare.compare(S0, S1, R=r['R'], budget=80 if TIER == 'quick' else 200, n=1000 if TIER == 'quick' else 1600, seed=SEED)
    except Exception as e:
        r['status'] = 'engine'
        r['note'].append('compare: %s %s' % (type(e).__name__, traceback.format_exc()[-300:]))
        r.pop('R')
        return r
    r.pop('R')
    r['ok'], r['und'] = R.ok, R.und
    r['note'] += [str(u)[:160] for u in R.undecided[:5]]
    for what, txt, w in R.viol:
        r['viol'].append((r['where'], name, what, txt, w))
    r['status'] = 'violated' if R.viol else 'equal' if not R.und else 'partial'
    r['secs'] = round(time.time() - t, 2)
    return r


def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    global TIER
    pid = sys.argv[1]
    TIER = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        TIER = sys.argv[sys.argv.index('--tier') + 1]
    P = props.PROPS[pid]
    prog = program()
    present = set(f.name for f in prog.all_funcs())
    names = props.roots(prog, P)
    pats = [re.compile('^(?:%s)$' % r) for r in P['roots']]
    gone = []
    if os.path.isdir(spec.DIR):
        for f in sorted(os.listdir(spec.DIR)):
            if f.endswith('.json.gz') and any(x.match(f[:-8]) for x in pats) and f[:-8] not in present:
                gone.append(f[:-8])
    hlp = props.helpers(prog, P)
    # functions of which a property covers the named outputs and events only
    also = {}
    for rx, what in P.get('also', ()):
        for n in sorted(present):
            if re.fullmatch(rx, n) and n not in names:
                also.setdefault(n, []).append(re.compile(what))
    names = [n for n in names + sorted(also) if spec.have(n)]
    res = []
    rres = []
    with mp.Pool(min(8, max(1, len(names) + len(P['rules']))), maxtasksperchild=1) as pool:
        jobs = [pool.apply_async(conform, (n,)) for n in names]
        rj = [(r, pool.apply_async(rules.run_rule, (r, pid, TIER))) for r in P['rules']]
        for j in jobs:
            res.append(j.get())
        for r, j in rj:
            rres.append((r, j.get()))
    if not any(r['status'] in ('equal', 'partial', 'violated', 'budget') for r in res) and not any(x[1]['checked'] for x in rres):
        print('analysis broken: nothing of %s could be analysed' % pid)
        for r in res[:5]:
            print(' ', r['name'], r['status'], r['note'])
        sys.exit(2)
    for r in res:
        if r['name'] in also:
            kept = [v for v in r['viol'] if any(x.search(v[3] if v[2] == 'trace' else v[2]) for x in also[r['name']])]
            if len(kept) < len(r['viol']):
                r['note'].insert(0, 'differences in outputs and events outside this property: %d' % (len(r['viol']) - len(kept)))
                r['viol'] = kept
                if not kept:
                    r['status'] = 'partial'
    viol = []
    # an internal function may change when everything built on it provably behaves as before
    eq = set(r['name'] for r in res if r['status'] == 'equal')
    for r in res:
        if r['viol'] and r['name'] in hlp and hlp[r['name']] and all(e in eq for e in hlp[r['name']]):
            r['note'].insert(0, 'internal function differs, all of its users are equal: %s' % ', '.join(hlp[r['name']]))
            r['status'], r['viol'] = 'unobservable', []
    for r in res:
        for where, fn, what, txt, w in r['viol']:
            viol.append({'key': '%s/%s' % (fn, re.sub(r'@.*', '', what)), 'where': where, 'function': fn, 'rule': 'specified transfer function', 'construct': what, 'text': txt, 'witness': w})
    for r, x in rres:
        for v in x['viol']:
            viol.append(v)
    kn = known()
    new, old = [], []
    for v in viol:
        (old if (pid, v['key']) in kn else new).append(v)
    seen = set()
    for v in old:
        if v['key'] not in seen:
            seen.add(v['key'])
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['key'], kn[(pid, v['key'])]))
    und = sum(r['und'] for r in res)
    full = [r for r in res if r['status'] == 'equal']
    cov = {
        'explanation': 'Static: every covered function is compiled to LLVM IR with debug information, abstractly interpreted into gated value-flow terms '
                       '(joins are gated choices, loops are folds), and each output and observable event is compared with the reference summary; '
                       'plus the rules listed. Nothing of the code under test is executed.',
        'units_parsed': len(prog.mods), 'functions_analysed': [r['name'] for r in res if r['status'] in ('equal', 'partial', 'violated')],
        'functions_all_terms_equal': len(full), 'obligations_equal': sum(r['ok'] for r in res), 'obligations_undecided': und,
        'outputs_extracted': sum(r['outputs'] for r in res), 'events_extracted': sum(r['events'] for r in res),
        'not_decided': {r['name']: [r['status']] + r['note'][:3] for r in res if r['status'] not in ('equal', 'violated')},
        'absent': gone,
        'rules': {r: {k: x[k] for k in x if k != 'viol'} for r, x in rres},
        'known_findings': sorted(seen),
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - T0, 2),
          'assumptions': ['stub headers and models under /verif/stubs stand for libsbp and libswiftnav (the submodules are empty here)', 'floating-point arithmetic is compared as real arithmetic'],
          'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1, default=str)
        for v in new[:12]:
            print('%s: in %s: [%s] %s' % (v['where'], v.get('function'), v['rule'], v['text'][:400]))
            if v.get('witness'):
                print('    differs e.g. at %s' % str(v['witness'])[:300])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    print('%s: %d functions (%d with all terms equal), %d obligations equal, %d undecided, %d rules, %.1f s' % (pid, len(res), len(full), sum(r['ok'] for r in res), und, len(rres), time.time() - T0))


if __name__ == '__main__':
    main()
