#!/usr/bin/env python3
# Fills in the table of planted bugs in DESIGN.md.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
p = V + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- end -->'
s = s.replace('SEEDED_TABLE', t) if 'SEEDED_TABLE' in s else re.sub(r'<!-- seeded -->.*?<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
