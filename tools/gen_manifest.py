#!/usr/bin/env python3
"""writes MANIFEST.json from vf/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.registry import PARTS, NOTES, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in ids:
    if p in PARTS:
        checks.append(dict(property=p, quick_cmd='./run_check.py %s --tier quick' % p, thorough_cmd='./run_check.py %s --tier thorough' % p,
                           technique='TLA+ specification checked with TLC; recorded executions of the real code are checked against it (trace validation)',
                           level=PARTS[p][0], level_note=NOTES.get(p, '')))
m = dict(version=1, setup_cmd='true', checks=checks,
         not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')) for p in ids if p not in PARTS],
         notes='Every check rebuilds its harness from /repo and runs TLC; nothing is shared between checks. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
