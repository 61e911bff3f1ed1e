"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PLAN:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                       'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': 'deterministic simulation with fault injection: ' + plan.TECH[i],
                       'level': 'exploration', 'level_note': plan.NOTE[i], 'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': plan.NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'test -x /opt/venvpp/bin/python && python3 -m py_compile check.py plan.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks were needed: the simulator holds the code by its own seams '
               '(line events, user callables, numpy.random, stand-in modules)', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Replay a violation with: python3 check.py --replay FILE. VERIF_WORKERS and VERIF_RUNS scale a check.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
