"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | shows only with |', '|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'], m['needs']))
p = root + '/DESIGN.md'
s = open(p).read()
i = s.index('| planted bug |') if '| planted bug |' in s else s.index('SEEDTABLE')
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n')
