#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from an import registry
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = registry.NOT_APPLICABLE
checks, na = [], []
for i in ids:
    if i in registry.PROPS:
        P = registry.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                       'technique': 'static analysis: ' + P.technique, 'level': 'other', 'level_note': P.note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "from an.program import build_extractor; build_extractor()"',
     'checks': checks, 'not_applicable': na,
     'notes': 'All checks are one analyser (extract/, an/) with per-property rules; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
