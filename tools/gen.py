#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
TECH = 'contract-based deductive verification (own VC generator on the extracted AST, z3/cvc5), contracts replayed on the real code'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }, sort_keys=False) + '\n')
na = [{'property': i, 'reason': r} for i, r in NOT_APPLICABLE]
nas = set(i for i, _ in NOT_APPLICABLE)
checks = [{
    'property': p['id'],
    'quick_cmd': 'python3-vt pv/check.py %s' % p['id'],
    'thorough_cmd': 'python3-vt pv/check.py %s --thorough' % p['id'],
    'technique': TECH,
    'level': p.get('level', 'proof'),
    'level_note': p['note'],
} for p in PROPS if p['id'] not in nas]
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && cvc5 --version', 'checks': checks,
           'not_applicable': na,
           'notes': 'see DESIGN.md; known-findings.txt lists findings and fixes'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
