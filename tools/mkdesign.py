#!/usr/bin/env python3
"""Fills the per-property part and the table of planted bugs into DESIGN.md (from tools/design.md, tools/design_props.md, seeded/*)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f'{V}/tools/design.md').read()
props = open(f'{V}/tools/design_props.md').read()
res = json.load(open(f'{V}/tools/seed_results.json')) if os.path.exists(f'{V}/tools/seed_results.json') else {}
rows = ['| planted bug | property | needs | caught by the quick check |', '|---|---|---|---|']
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {res.get(i, '?')} |")
open(f'{V}/DESIGN.md', 'w').write(t.replace('@@PROPS@@', props.strip()).replace('@@SEEDS@@', '\n'.join(rows)))
