#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
TECH = 'static analysis: abstract interpretation of LLVM IR'
NOTE = ('Sound-by-construction abstract interpretation (value numbering, linear inequalities, container normal forms, '
        'loop fixpoints) of the compiled IR of the library together with specification drivers; nothing is executed and no '
        'solver is called. ')
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        if p.get('state'):
            d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s' % p['id'],
                       thorough_cmd='./check.sh %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=p.get('tech', TECH), level='other',
                       level_note=NOTE + p['note']))
m = dict(version=1, setup_cmd='python3 engine/build.py', checks=checks, not_applicable=na,
         notes='No hooks are added to /repo. Design and limits: DESIGN.md. Recorded defects: known_findings.txt.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
