#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing it)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, HOOKS                      # noqa: E402

with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement')}
        q['quantifier'] = {'over': p['over'], 'text': p['forall']}
        q['why_tests_cant'] = p['why']
        q['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p.get('hook'):
            q['anchors']['hook_needed'] = p['hook']
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
checks, na = [], []
for p in PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'],
                   'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 -m sa.build lib bin py', 'hooks': HOOKS, 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they analyse the MIR of /repo as it is now. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
