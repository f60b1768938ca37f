#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from components.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from components import PROPERTIES, NOTES, NOT_APPLICABLE
props = {json.loads(l)['id']: json.loads(l) for l in open(ROOT + '/properties.jsonl')}
TECH = ('TLA+ specification checked with TLC; behaviours generated from it are replayed on the library and the '
        'recorded traces validated against it')
checks = []
for p in sorted(PROPERTIES):
    assert p in props, p
    checks.append({'property': p, 'quick_cmd': f'python3 check.py {p}',
                   'thorough_cmd': f'python3 check.py {p} --tier thorough',
                   'evidence_file': f'evidence/{p}.json', 'technique': TECH, 'level': 'model_checking',
                   'level_note': NOTES.get(p, NOTES['*'])})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NOT_APPLICABLE.items())
                        if p in props and p not in PROPERTIES],
     'notes': 'no hooks: the workers observe the public interface of the library in /repo'}
missing = set(props) - set(PROPERTIES) - set(NOT_APPLICABLE)
for p in sorted(missing):
    m['not_applicable'].append({'property': p, 'reason': 'not claimed yet: its specification is still being written'})
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
