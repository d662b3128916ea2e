#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one place to edit)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'hook_needed': None},
        }, ensure_ascii=False) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"bash check.sh {p['id']}",
        'thorough_cmd': f"bash check.sh {p['id']}",
        'technique': p['tech'],
        'level': 'other',
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: engine/ parses /repo on every run (syn for Rust, the TypeScript compiler API for the client) and decides each rule from the source; nothing of the analysed code is executed. No hooks in /repo.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(root, 'properties.jsonl')): jsonschema.validate(json.loads(l), s)
    print('schemas ok', len(checks), 'checks', len(na), 'n/a')
except ImportError:
    print('written')
