#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (run by hand, not by the checks)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(here, 'tools/techniques.py')).read(), T)
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in T['DONE']:
        tech, note = T['DONE'][i]
        checks.append({'property': i, 'quick_cmd': './check ' + i,
                       'thorough_cmd': './check ' + i + ' thorough', 'evidence_file': 'evidence/%s.json' % i,
                       'technique': tech, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './check build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the public API shows everything the monitors watch. VERIF_TIER=thorough selects the deep exploration.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
