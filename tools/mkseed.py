"""tools/mkseed.py ID: turns the uncommitted change of /repo into seeded/ID/patch.diff
and undoes it; reads property/needs/breaks from arguments, the demo from stdin."""
import sys, os, json, subprocess
sid, prop, needs, breaks = sys.argv[1:5]
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
assert diff.strip()
open(d + '/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
          open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.py', 'w').write(sys.stdin.read())
open(d + '/demo.sh', 'w').write('#!/bin/bash\nD=$(dirname "$(realpath "$0")")\ncd /repo && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec /opt/venv/bin/python "$D/demo.py"\n')
