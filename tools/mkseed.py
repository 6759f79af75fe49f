"""mkseed.py SPEC.py: builds /verif/seeded/<ID> from a spec defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, 'seeded', ns['ID'])
w = '/tmp/mkseed.%d' % os.getpid()
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w])
try:
    for f, old, new in ns['EDITS']:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'])
    base = subprocess.check_output(['git', '-C', w, 'diff', '0e9ac89', 'HEAD', '--unified=0'], text=True)
    mine = {l[1:].strip() for l in base.splitlines() if l.startswith('+') and not l.startswith('+++')}
    for l in diff.decode().splitlines():
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() in mine:
            print('WARNING: touches an added line:', l)
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])
os.makedirs(d, exist_ok=True)
open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
shutil.copy(os.path.join(V, 'tools', 'demo_lib.py'), os.path.join(d, 'demo_lib.py'))
open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# run in the tree under test\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
print(ns['ID'], len(diff))
