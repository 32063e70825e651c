#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(here + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs']))
rows.sort()
t = '<!-- catch table -->\n| caught by | planted bug | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % (a, b, ' '.join(n.split()).replace('|', '/')) for a, b, n in rows) + '<!-- end -->'
p = here + '/DESIGN.md'
s = open(p).read()
s = s.replace('CATCH_TABLE', t) if 'CATCH_TABLE' in s else re.sub(r'<!-- catch table -->.*?<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
