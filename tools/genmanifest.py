#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/tools')
from props import P, NOT_APPLICABLE
from checks import CHECKS
with open(VERIF + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{
        'property': p['id'], 'quick_cmd': f"python3 tools/check.py {p['id']}", 'thorough_cmd': f"python3 tools/check.py {p['id']} --thorough",
        'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note'],
    } for p in P if p['id'] in CHECKS],
    'not_applicable': NOT_APPLICABLE,
    'notes': 'No hooks are needed. Replay a failure with: build/<config>/<program> --replay replays/<file>. The thorough tier is the same search with about 20 times the cases.',
}
with open(VERIF + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
