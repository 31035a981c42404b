#!/usr/bin/env python3
"""Write MANIFEST.json from table.py."""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, NOT_APPLICABLE, LEVEL_NOTE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

manifest = {
    'version': 1,
    'setup_cmd': 'python3 tools/build.py',
    'checks': [],
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
    'notes': 'KNOWN_FINDINGS lists what was repaired and what is known to fail. A replay file is replayed with build/<exe> replay <property> --file <replay> --verbose.',
}
for k, v in sorted(PROPS.items()):
    manifest['checks'].append({
        'property': k,
        'quick_cmd': 'python3 tools/check.py %s' % k,
        'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s' % k,
        'evidence_file': 'evidence/%s.json' % k,
        'technique': 'deterministic simulation with fault injection: seeded search over %s' % v['over'],
        'level': 'exploration',
        'level_note': LEVEL_NOTE[v['exe']],
    })
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    id = json.loads(line)['id']
    if id not in PROPS and id not in NOT_APPLICABLE:
        manifest['not_applicable'].append({'property': id, 'reason': 'no check has been built for it yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
