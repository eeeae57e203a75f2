#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    q = PLAN[p]
    tech = []
    if q.get('units'): tech.append('deductive verification (Verus) of functions extracted from /repo on every run')
    if q.get('kani'): tech.append('Kani contracts over full domains')
    tech.append('bounded executable contracts for the rest')
    note = (f"Proved: {q['proved']} " if q.get('proved') else '') + (f"Bounded: {q['bounded']}" if q.get('bounded') else 'Bounded: executable contracts over generated cases.')
    checks.append(dict(property=p, quick_cmd=f'python3 tools/check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 tools/check.py {p}',
                       technique='; '.join(tech), level=q['level'], level_note=note))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[],
         notes='Every check rebuilds everything from /repo; see DESIGN.md. known-findings.txt lists repaired defects.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); print(len(checks))
