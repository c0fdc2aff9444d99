#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
path = os.path.join(root, 'DESIGN.md')
t = open(path).read()
rows = []
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| `%s` | %s | %s | %s |\n' % (os.path.basename(d), m['property'], m['needs'], m['what_it_breaks']))
head = '| Planted bug | Caught by | Needs | What it breaks |\n|---|---|---|---|\n'
i = t.index(head) + len(head)
j = t.index('\n\n', i - 1) + 1
open(path, 'w').write(t[:i] + ''.join(rows) + t[j:])
