#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json and tools/detected.json."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
det = json.load(open(f'{root}/tools/detected.json'))
rows = ['| bug | property | what it needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {det.get(d, 'not yet run')} |")
p = f'{root}/DESIGN.md'
t = open(p).read()
head = t.split('@@TABLE@@')[0] if '@@TABLE@@' in t else t[:t.index('| bug | property')]
open(p, 'w').write(head + '\n'.join(rows) + '\n')
