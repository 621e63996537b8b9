"""all.py [regex]: compare every function with its reference (VERIF_REPO, SA_PASSES); prints violations and totals.
Used to test quietness on behaviour-preserving variants."""
import multiprocessing as mp, os, re, sys, time
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import check, props, spec
from driver import program
check.T0 = time.time() + 1e6
rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
prog = program()
names = sorted(set(n for P in props.PROPS.values() for n in props.roots(prog, P) if spec.have(n) and rx.search(n)))
with mp.Pool(8, maxtasksperchild=1) as pool:
    res = {r['name']: r for r in pool.imap_unordered(check.conform, names)}
st = {}
for r in res.values():
    st[r['status']] = st.get(r['status'], 0) + 1
bad = {}
for pid, P in props.PROPS.items():
    hlp = props.helpers(prog, P)
    ns = [n for n in props.roots(prog, P) if n in res]
    eq = set(n for n in ns if res[n]['status'] == 'equal')
    for n in ns:
        r = res[n]
        if r['viol'] and not (n in hlp and hlp[n] and all(e in eq for e in hlp[n])):
            bad.setdefault(n, []).append(pid)
print(st, 'ok', sum(r['ok'] for r in res.values()), 'und', sum(r['und'] for r in res.values()))
for n, ps in sorted(bad.items()):
    for v in res[n]['viol']:
        print('VIOL', n, ','.join(ps), v[2], v[3][:300] if len(v) > 3 else '')
for r in res.values():
    if r['status'] in ('engine', 'absent', 'budget', 'signature', 'boundary'):
        print(r['status'], r['name'], r['note'][:1])
slow = sorted(res.values(), key=lambda r: -r.get('secs', 0))[:5]
print('slow', [(r['name'], r.get('secs')) for r in slow])
