"""Writes MANIFEST.json from the registry (run: python3 tools/mkmanifest.py)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from sim.registry import CHECKS, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
ids = [p['id'] for p in props]
na = [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items() if k in ids]
for i in ids:
    if i not in CHECKS and i not in NOT_APPLICABLE:
        na.append({'property': i, 'reason': 'No check is registered yet.'})
checks = []
for i in ids:
    if i in CHECKS:
        t, note = NOTES[i]
        checks.append({
            'property': i,
            'quick_cmd': './run.sh ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': t, 'level': 'exploration', 'level_note': note})
m = {'version': 1,
     'setup_cmd': 'true',
     'hooks': {'guard': 'SVGPY_SIM (no hooks exist: every seam is outside /repo)',
               'enable': 'nothing to enable; checks import /repo/svgpy directly',
               'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Deterministic simulation with fault injection; see DESIGN.md.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
