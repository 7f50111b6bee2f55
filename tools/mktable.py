#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- planted: begin -->\n', '<!-- planted: end -->\n'
rows = []
for i in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s |\n' % (i, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), m.get('caught_by', m['property'])))
t = open(H + '/DESIGN.md').read()
table = A + '\n| planted bug | needs | breaks | caught by |\n|---|---|---|---|\n' + ''.join(rows) + '\n' + B
if A in t:
    t = t[:t.index(A)] + table + t[t.index(B) + len(B):]
else:
    t = t.rstrip('\n') + '\n\n## Planted bugs (seeded/)\n\n' + table
open(H + '/DESIGN.md', 'w').write(t)
print(len(rows))
