#!/usr/bin/env python3
"""usage: seed_new.py ID PROPERTY: takes the uncommitted diff of /repo as a planted bug, then resets /repo.
reads needs / what_it_breaks from stdin (two lines); demo.rs must already be in seeded/ID"""
import sys, os, subprocess, json, shutil
i, p = sys.argv[1:3]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
needs, breaks = sys.stdin.read().strip().split('\n')
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
assert diff, 'no diff'
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': p, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
if not os.path.exists(d + '/demo.sh'):
    shutil.copy('/verif/tools/demo_template.sh', d + '/demo.sh')
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
