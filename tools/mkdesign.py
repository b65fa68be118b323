#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md and the planted bugs."""
import json, os
T = os.path.dirname(os.path.abspath(__file__))
d = os.path.join(T, '..', 'seeded')
out = ['| planted bug | property | needs |', '|:--|:--|:--|']
for i in sorted(os.listdir(d)):
    m = json.load(open(f'{d}/{i}/meta.json'))
    out.append(f"| {i} | {m['property']} | {m['needs']} |")
h, t = (open(os.path.join(T, f'design_{x}.md')).read() for x in ('head', 'tail'))
open(os.path.join(T, '..', 'DESIGN.md'), 'w').write(h.rstrip('\n') + '\n' + t.replace('TABLE', '\n'.join(out)))
