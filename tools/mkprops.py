import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import proptext, props
NA = proptext.__dict__.get('NA', [])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in proptext.P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
    for p, reason in NA:
        f.write(json.dumps(p) + '\n')
claimed = [p['id'] for p in proptext.P if p['id'] in props.PROPS]
missing = [p['id'] for p in proptext.P if p['id'] not in props.PROPS]
assert not missing, missing
TECH = 'static: abstract interpretation of LLVM IR into gated value-flow normal forms, compared with reviewed reference summaries'
checks = []
for i in claimed:
    P = props.PROPS[i]
    rules = [r for r in P['rules']]
    t = (TECH if P['roots'] else 'static: ' + P.get('technique', 'dataflow rules')) + ('; rules: ' + ', '.join(rules) if rules else '')
    checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 sa/check.py %s --tier thorough' % i,
                   'technique': t, 'level': 'other',
                   'level_note': P.get('note', 'Static, over all inputs: each output and event is decided by equality of canonical terms; unequal terms alarm only when exact and a disagreeing valuation of the terms exists; terms the domain cannot express exactly are counted as undecided in the evidence.')})
json.dump({'version': 1, 'setup_cmd': 'python3 sa/setup.py', 'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': r} for p, r in NA]}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
