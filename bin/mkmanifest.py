#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, checks.py and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'bin'))
import checks
from notes import NOTES, NA
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
cs, na = [], []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        t, n = NOTES.get(i, ('TLA+ specification explored with TLC, behaviours replayed on the real code', 'Bounded model; conformance holds on the behaviours replayed.'))
        cs.append({'property': i, 'quick_cmd': 'python3 bin/check %s --tier quick' % i, 'thorough_cmd': 'python3 bin/check %s --tier thorough' % i,
                   'technique': t, 'level': checks.CHECKS[i]['level'], 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'hooks': {'guard': 'verif', 'enable': 'not needed: the checks use the public API only', 'source_commits': []},
     'checks': cs, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
