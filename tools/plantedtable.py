#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], ' '.join(m['needs'].split()).replace('|', '/')))
s = open('/verif/DESIGN.md').read()
h = '| planted bug | property (its check reports it) | what it needs |\n|---|---|---|\n'
i = s.index(h) + len(h)
j = s.index('\n\n', i)
s = s[:i] + '\n'.join(rows) + s[j:]
open('/verif/DESIGN.md', 'w').write(s)
