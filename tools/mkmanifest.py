#!/usr/bin/env python3
"""Writes MANIFEST.json for every property that has a check in harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'p_%s.py' % i.lower())):
        n = notes.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': 'bin/check %s quick' % i,
            'thorough_cmd': 'bin/check %s thorough' % i,
            'technique': 'TLA+ specification (%s) checked by TLC; every transition of the bounded model and '
                         'spec-evaluated seeded behaviours replayed on the real code' % n.get('spec', '?'),
            'level': 'model_checking',
            'level_note': n.get('note', 'The specification is checked exhaustively within the stated bounds; the code is '
                                'bound to it by replaying all explored transitions plus seeded random behaviours, so '
                                'assurance for the code is exhaustive inside the bounds and sampled beyond them. '
                                'Trusts TLC, the specification and the driver projection.'),
            'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': notes.get(i, {}).get('na', 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: everything is observed through the public interface. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
