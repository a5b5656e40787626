#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props_table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props_table import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
checks = []
for p in PROPS:
    if p['id'] in [n['property'] for n in NOT_APPLICABLE]:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"bash check.sh {p['id']} quick",
        'thorough_cmd': f"bash check.sh {p['id']} thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE, 'notes': NOTES}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
