#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.md: the defects repaired in /repo (commit looked up by subject) and those that are only recorded."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
PROP = dict(l.split() for l in '''26bebf6 C02
1e940ae C02
934e55a C02
2142013 C01
0801f7a C05
4f3d547 C07
400f002 C22
cea7457 C06
018956f C03
9860a89 C02
c33dedc C06
fd6a068 C03
9c2192c C08
cd0b4fd C08
7b7e68e C09
e566e91 C09
8522226 C13
1cd454d C14
0b52a4b C13
ae11eb7 C14
4d60f6b C15
4283526 C17
a9d9265 C17
0179c2b C17
586ac28 C17
e3f73b1 C16
4ef8b9a C19
f774335 C16
782e6aa C19
1b70425 C19
df1f026 C19
dac7082 C21
f8a67e3 C21
9c9beb3 C20
49870f6 C20
455141e C06
98dd0e7 C06
e0c1ade C07
fa114b5 C07
9955260 C09
6c64b59 C14
86b67a6 C15
0711d71 C18
b5e4dc7 C18'''.splitlines())
RECORDED = open(os.path.join(V, 'tools', 'recorded_findings.txt')).read()
out = ['# Findings', '', 'Genuine defects of scalopus. A `fixed:` entry suppresses nothing. A `KNOWN:` entry is reported as KNOWN-FINDING by the',
       'check of its property, for exactly the case described; any other violation of that property is still a VIOLATION.', '', '## Repaired in /repo', '']
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        out.append(f'fixed: property={PROP[h[:7]]} {h[:7]} {s[4:].strip()}')
out += ['', '## Recorded, not repaired', '', RECORDED.strip(), '']
open(os.path.join(V, 'KNOWN_FINDINGS.md'), 'w').write('\n'.join(out))
