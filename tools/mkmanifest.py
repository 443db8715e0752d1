#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check module is claimed, the others are listed with a reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd=f'python3 check.py {p} --quick', thorough_cmd=f'python3 check.py {p} --thorough',
                           evidence_file=f'evidence/{p}.json', technique=TECH[p][0], level='model_checking', level_note=TECH[p][1]))
    else:
        na.append(dict(property=p, reason=TECH.get(p, ['', 'its check is not built yet'])[1]))
json.dump(dict(version=1, setup_cmd='python3 check.py --version', checks=checks, not_applicable=na,
               notes='TLA+ specifications in spec/, conformance harnesses in harness/. No hooks in /repo are needed: the harnesses use the public '
                     'interface of the library and interpose system calls from outside. See DESIGN.md and KNOWN_FINDINGS.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
