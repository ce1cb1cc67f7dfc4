#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md from tools/seeds.txt (`<id> <caught by, comma separated>`)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = dict(l.rstrip('\n').split(' ', 1) for l in open(f'{V}/tools/seeds.txt') if ' ' in l)
d = open(f'{V}/DESIGN.md').read()
mark = '| seed | needs | breaks | caught by |'
d = d[:d.index(mark)] if mark in d else d
d += mark + '\n|---|---|---|---|\n'
for i in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    d += f"| {i} | {m['needs']} | {m['what_it_breaks']} | {r.get(i, '(not run)')} |\n"
open(f'{V}/DESIGN.md', 'w').write(d)
