#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the table of planted bugs (seeded/*/meta.json, tools/catches.txt)."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
head = open(os.path.join(here, 'design_head.md')).read().rstrip() + '\n'
marks = {}
for l in open(os.path.join(here, 'catches.txt')):
    p = l.rstrip('\n').split('\t')
    if len(p) >= 2: marks[p[0]] = p[1:]
rows = ['', '| change | property | caught by | what it needs |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    c = marks.get(i, ['not measured'])
    note = (' (' + c[1] + ')') if len(c) > 1 else ''
    rows.append('| %s | %s | %s%s | %s |' % (i, d['property'], c[0], note, d['needs'].replace('|', '\\|')))
open(os.path.join(root, 'DESIGN.md'), 'w').write(head + '\n'.join(rows) + '\n')
