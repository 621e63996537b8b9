"""Writes the per-property table of DESIGN.md (between the markers) from proptext, props and the last evidence."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import proptext, props
out = ['| id | property | how decided: functions analysed (all terms equal) / terms equal / undecided | rules | cost |', '|---|---|---|---|---|']
for p in proptext.P:
    i = p['id']
    try:
        c = json.load(open(os.path.join(V, 'evidence', i + '.json')))
        v = c['coverage']
        a = '%d (%d) / %d / %d' % (len(v['functions_analysed']), v['functions_all_terms_equal'], v['obligations_equal'], v['obligations_undecided'])
        t = '%.0f s' % c['wall_s']
    except Exception:
        a, t = '?', '?'
    out.append('| %s | %s | %s | %s | %s |' % (i, p['title'], a, ', '.join(props.PROPS[i]['rules']) or '-', t))
d = os.path.join(V, 'DESIGN.md')
s = open(d).read()
b, e = '<!-- table -->', '<!-- /table -->'
s = s[:s.index(b) + len(b)] + '\n' + '\n'.join(out) + '\n' + s[s.index(e):]
open(d, 'w').write(s)
