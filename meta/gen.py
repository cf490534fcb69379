#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/props.py (one source for both)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/meta')
from props import PROPS
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
                 why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                 state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])], observe_at=p.get('observe', []), hook_needed=None))
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []; na = []
for p in PROPS:
    if 'na' in p: na.append(dict(property=p['id'], reason=p['na'])); continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note']))
json.dump(dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na,
     notes='Static analysis only: every check recompiles /repo/src to LLVM IR in a scratch directory and decides on that. Genuine defects are in known-findings.txt.'),
     open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')
