#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = here + '/DESIGN.md'
s = open(f).read()
mark = '<!-- planted bugs -->\n'
s = s.split(mark)[0] + mark + '| change | caught by | needs |\n|---|---|---|\n'
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    s += f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} |\n"
open(f, 'w').write(s)
