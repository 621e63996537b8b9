"""Checks that the tool chain and the reference summaries are in place."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
for t in ('clang-18', 'opt-18'):
    if shutil.which(t) is None and shutil.which(t[:-3]) is None:
        sys.exit('missing ' + t)
n = len([f for f in os.listdir(spec.DIR) if f.endswith('.json.gz')])
print(n, 'reference summaries')
sys.exit(0 if n > 100 else 1)
