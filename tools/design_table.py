"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = here + '/DESIGN.md'
s = open(p).read()
head = s[:s.index('| planted bug |')] if '| planted bug |' in s else s.replace('@@TABLE@@', '')
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/').replace(chr(10), ' ')))
open(p, 'w').write(head.rstrip() + '\n\n' + '\n'.join(rows) + '\n')
