#!/usr/bin/env python3
"""regenerates MANIFEST.json from plan.py and properties.jsonl"""
import json, os
from plan import PLAN
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in PLAN:
        m['checks'].append({
            'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
            'evidence_file': f'evidence/{i}.json', 'technique': PLAN[i].get('technique', 'runtime monitoring: oracle over observed executions of randomized workloads'),
            'level': PLAN[i].get('level', 'exploration'),
            'level_note': PLAN[i].get('note', 'holds on the executions explored (counts in the evidence file); trusts the harness oracle, rustc and the CPU')})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
