#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (dev tool).
A planted bug is kept in seeded/ with "caught_by" in this table only after `seed.py --catch` confirmed it."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted(V.glob('seeded/*/meta.json')):
    d = json.loads(m.read_text())
    missed = (m.parent / 'MISSED').exists()
    rows.append((d['property'], m.parent.name, d['needs'], 'missed' if missed else d['property']))
rows.sort()
t = '<!-- catchtable -->\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
t += ''.join(f'| {i} | {p} | {n.replace("|", "/")} | {c} |\n' for p, i, n, c in rows)
t += '<!-- /catchtable -->'
f = V / 'DESIGN.md'
s = f.read_text()
s = s.replace('\nCATCHTABLE\n', '\n<!-- catchtable -->\n<!-- /catchtable -->\n')
s = re.sub(r'<!-- catchtable -->.*<!-- /catchtable -->', lambda _: t, s, flags=re.S)
f.write_text(s)
