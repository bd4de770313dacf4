#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = '/verif'
j = json.load(open(V + '/tools/catch.json'))
s = open(V + '/DESIGN.md').read().split('<!-- table -->')[0] + '<!-- table -->\n| Planted bug | Needs | Checks |\n|---|---|---|\n'
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    r = '; '.join('%s %s' % x for x in sorted(j.get(i, {}).items())) or 'not run'
    s += '| %s | %s | %s |\n' % (i, m['needs'].replace('|', '/'), r)
open(V + '/DESIGN.md', 'w').write(s)
