"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property (check) | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
s = open(V + '/DESIGN.md').read()
s = s[:s.index('<!--SEEDS-->')] + '<!--SEEDS-->\n' + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
