#!/usr/bin/env python3
"""mkplanted.py < OUTPUT: writes the table of planted bugs into DESIGN.md.
Each line of the input is "ID PROPERTY rc=N TIMEs VIOLATION property=P replay=..."; lines may be missing
for bugs already in the table."""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
doc = os.path.join(root, 'DESIGN.md')
s = open(doc).read()
head, _, old = s.partition('## Planted bugs\n')
rows = dict(re.findall(r'^\| ([a-z0-9-]+) \|(.*)$', old, re.M))
for l in sys.stdin:
    f = l.split()
    if len(f) < 3 or not f[2].startswith('rc='): continue
    m = json.load(open(os.path.join(root, 'seeded', f[0], 'meta.json')))
    r = re.search(r'replays/[A-Z]\d\d-(.*)-[0-9a-f]+\.json', l)
    caught = 'caught: ' + r.group(1).replace('_', ' ') if f[2] == 'rc=1' and r else 'MISSED'
    rows[f[0]] = f' {m["property"]} | {m["needs"]} | {caught} |'
rows = {k: v for k, v in rows.items() if os.path.isdir(os.path.join(root, 'seeded', k))}
out = head + '''## Planted bugs
Each is in `seeded/`, written from the text of its property and the code. The last column names the facet
of the property's quick check that reports it. Misses led to new facets or generators (`subordinate-devices`
to "records", which also found a defect) until none was left.

| Change | Property | Needs | Quick check |
|---|---|---|---|
'''
for k in sorted(rows, key=lambda k: (rows[k][:5], k)):
    out += f'| {k} |{rows[k]}\n'
open(doc, 'w').write(out)
