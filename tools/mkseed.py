#!/usr/bin/env python3
"""mkseed.py ID: /repo's working-tree diff becomes /verif/seeded/ID/patch.diff (then reverted); demo.cpp and meta.json are given beside."""
import sys, os, subprocess, json, shutil
sid, prop, needs, breaks, demo = sys.argv[1:6]
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
p = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
assert p
open(d + '/patch.diff', 'w').write(p)
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
if demo.endswith('.cpp'):
    shutil.copy(demo, d + '/demo.cpp')
    shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
else:
    shutil.copy(demo, d + '/demo.sh')
os.chmod(d + '/demo.sh', 0o755)
