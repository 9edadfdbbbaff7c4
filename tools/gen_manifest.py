#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os
from config import CHECKS, NOTES, NOT_APPLICABLE
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in CHECKS: continue
    c = CHECKS[i]
    tech = 'contract-based deductive verification: ' + ' and '.join((['Verus contracts on functions extracted from the source'] if c['specs'] else []) + (['Kani function contracts on the float and byte-layout leaves'] if c.get('kani') else []))
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=tech, level=c.get('level', 'proof'), level_note=NOTES[i]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'not claimed yet: the contracts for it are still being written')) for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
