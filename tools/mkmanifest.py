#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/registry.py and the property texts."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from registry import CHECKS, NOTES, TECHNIQUE, LEVEL, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in CHECKS:
        checks.append(dict(property=pid, quick_cmd='./check %s quick' % pid, thorough_cmd='./check %s thorough' % pid,
                           technique=TECHNIQUE.get(pid, TECHNIQUE['*']), level=LEVEL.get(pid, 'model_checking'),
                           level_note=NOTES[pid]))
    else:
        na.append(dict(property=pid, reason=NOT_APPLICABLE.get(pid, 'The check for this property is not built yet.')))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
