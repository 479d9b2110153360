#!/usr/bin/env python3
"""usage: new.py ID < spec     spec: python literal dict with property, needs, what_it_breaks,
edits [(file, old, new)], main (text of main.rs)"""
import sys, os, json, subprocess, tempfile, ast
id = sys.argv[1]
spec = {}
exec(sys.stdin.read(), spec)
d = f'/verif/seeded/{id}'
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='new.', dir='/tmp')
subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
for f, old, new in spec['edits']:
    p = f'{w}/r/{f}'
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
if 'main' in spec:
    open(d + '/main.rs', 'w').write(spec['main'].lstrip('\n'))
subprocess.run(['rm', '-rf', w])
# which removed lines are original?
