#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md (run by hand)."""
import glob, json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(D + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d), m['needs'].replace('|', '/'), m['property']))
p = D + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(\|---\|---\|---\|\n)(\|.*\n)*', lambda m: m.group(1) + '\n'.join(rows) + '\n', s, count=1)
open(p, 'w').write(s)
