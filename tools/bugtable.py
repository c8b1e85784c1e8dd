#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between its two markers)"""
import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
C = json.loads((ROOT / 'tools/catches.json').read_text()) if (ROOT / 'tools/catches.json').exists() else {}
rows = ['| bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted((ROOT / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f'| {d.name} | {m["what_it_breaks"]} | {m["needs"]} | {", ".join(C.get(d.name, [])) or "**not caught**"} |')
p = ROOT / 'DESIGN.md'
s = p.read_text()
t = '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->'
s = s.replace('@@BUGS@@', t) if '@@BUGS@@' in s else re.sub(r'<!-- bugs -->.*<!-- /bugs -->', lambda _: t, s, flags=re.S)
p.write_text(s)
