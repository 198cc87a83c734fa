"""Rewrite the table of planted bugs of DESIGN.md from seeded/*/meta.json (development tool)."""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(VERIF + '/seeded/*/meta.json')):
    d = json.load(open(p))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), d['property'],
                                           d['what_it_breaks'], d['needs']))
f = VERIF + '/DESIGN.md'
s = open(f).read()
a, r = s.split('<!-- bugs -->\n', 1)
b = r.split('<!-- /bugs -->', 1)[1]
head = '| planted bug | property | what it breaks | what it needs |\n|---|---|---|---|\n'
open(f, 'w').write(a + '<!-- bugs -->\n' + head + '\n'.join(rows) + '\n<!-- /bugs -->' + b)
print(len(rows))
