#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (run by hand)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|')))
t = open(os.path.join(V, 'DESIGN.md')).read()
head, tail = t.split('names (the prefix of its id).\n')
tail = tail[tail.index('## 7. Layout'):]
open(os.path.join(V, 'DESIGN.md'), 'w').write(head + 'names (the prefix of its id).\n\n' + '\n'.join(rows) + '\n\n' + tail)
