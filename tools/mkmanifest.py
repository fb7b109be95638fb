#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification model-checked with TLC; trace validation of the real code against it; TLC-generated tests'
N = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'hooks': {'guard': '--cfg mortal_verif',
               'enable': "RUSTFLAGS='--cfg mortal_verif' cargo build (tools/vk.py builds the harness crate with it)",
               'source_commits': HOOK_COMMITS},
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in N:
        m['checks'].append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 tools/check.py ' + i,
                            'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': N[i][0] or T, 'level': 'model_checking', 'level_note': N[i][1]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'machinery under construction'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
