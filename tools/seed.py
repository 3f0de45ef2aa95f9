"""Development aid: python3 tools/seed.py ID PROPERTY DIFF 'needs' 'what it breaks' < body.py   writes /verif/seeded/ID."""
import json, os, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, diff, needs, what = sys.argv[1:6]
d = V + '/seeded/' + i
os.makedirs(d, exist_ok=True)
shutil.copy(diff, d + '/patch.diff')
open(d + '/demo.py', 'w').write(open(V + '/tools/demo_head.py').read() + '\n\n' + sys.stdin.read())
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
