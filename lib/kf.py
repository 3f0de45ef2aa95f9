"""Developer's helper (never run by a check): record confirmed genuine defects.
python3 lib/kf.py LOG PROPERTY 'what fails'   - one entry per 'case {...}' line of a check's --keep-going log."""
import json, sys
sys.path.insert(0, __file__.rsplit('/', 1)[0])
from explore import case_key
log, pid, what = sys.argv[1:4]
have = {l.strip() for l in open('known_findings.jsonl')}
for l in open(log):
    if l.startswith('  case {'):
        c = json.loads(l[7:])
        e = json.dumps({'property': pid, 'key': case_key(c), 'what': '%s: %s' % (what, case_key(c))})
        if e not in have:
            open('known_findings.jsonl', 'a').write(e + '\n')
