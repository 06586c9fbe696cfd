#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.rules import ALL
from vf.levels import NOTE, TECHNIQUE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'L01': 'Fairness and latency are decided by the scheduler and by the cost of instructions, not by the shape of the code; no static rule here '
             'could be a necessary condition and quiet on harmless edits.',
      'L03': 'Whether a fixed grace period is long enough depends on run-time scheduling; no static argument bounds it.'}
m = {'version': 1, 'setup_cmd': 'python3 vf/setup.py',
     'checks': [{'property': p, 'quick_cmd': 'python3 vf/check.py %s' % p, 'thorough_cmd': 'python3 vf/check.py %s thorough' % p,
                 'technique': TECHNIQUE[p], 'level': 'other', 'level_note': NOTE[p]} for p in props if p in ALL],
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in ALL],
     'notes': 'No hooks: /repo is analysed as it is. Defects found and repaired are in known-findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']], 'not claimed')
