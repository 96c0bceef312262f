#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded (documentation only)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- end planted -->'
rows = ['| planted bug | caught by | manifests only with | what goes wrong |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(H, 'seeded/*/meta.json'))):
    j = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], j.get('caught_by', j['property']), j['needs'].replace('|', '/'), j['what_it_breaks'].replace('|', '/')))
i, k = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[k:])
