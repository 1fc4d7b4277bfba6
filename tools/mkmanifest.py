#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in ids:
    if p in props.PROPS:
        P = props.PROPS[p]
        checks.append({'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p}',
                       'technique': P.get('technique', props.TECHNIQUE), 'level': 'exploration', 'level_note': P.get('note', props.NOTE)})
na = [{'property': p, 'reason': props.NOT_APPLICABLE.get(p, 'the simulation driver for this property is not built yet')} for p in ids if p not in props.PROPS]
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py', 'hooks': {'guard': 'VERIF_SIM', 'enable': 'no hooks were needed: the simulator interposes on compiler instrumentation and library calls, /repo is compiled as it is', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': 'Deterministic simulation with fault injection, see DESIGN.md. Found defects: known_findings.txt.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
