#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
notes = json.load(open(os.path.join(here, 'levels.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(here, 'harness', pid.lower() + '.py')):
        n = notes[pid]
        checks.append({'property': pid, 'quick_cmd': './check.sh {} quick'.format(pid), 'thorough_cmd': './check.sh {} thorough'.format(pid),
                       'evidence_file': 'evidence/{}.json'.format(pid), 'technique': n['technique'], 'level': 'model_checking',
                       'level_note': n['note']})
    else:
        na.append({'property': pid, 'reason': notes.get(pid, {}).get('na', 'No check has been built yet.')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; harness/ binds them to the code in /repo. No hooks in /repo: the public API exposes the state.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
