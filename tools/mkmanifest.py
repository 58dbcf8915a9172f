"""Writes MANIFEST.json from the table below and the registered checks."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'harness'))
from hv import checks                                    # noqa: E402

TECH = ('TLA+ specification checked by TLC; scenario classes enumerated from it are executed on the library '
        'and every recorded call is judged by the specification (exact arithmetic)')
NOTE = {
    None: 'Call classes are enumerated exhaustively within the stated bounds and the design rules are model checked; '
          'concrete data per class are seeded samples.',
}
props = [json.loads(x)['id'] for x in open(os.path.join(here, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {'guard': 'none', 'enable': 'no hooks: every check uses the public interface', 'source_commits': []},
    'checks': [],
    'not_applicable': [],
    'notes': 'Known findings and repaired defects are listed in KNOWN_FINDINGS.txt.',
}
for p in props:
    if p in checks.CHECKS:
        m['checks'].append({
            'property': p,
            'quick_cmd': 'VERIF_TIER=quick bash check.sh ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p,
            'technique': TECH,
            'level': 'model_checking',
            'level_note': NOTE.get(p, NOTE[None]),
            'evidence_file': 'evidence/{}.json'.format(p)})
    elif p in checks.NOT_APPLICABLE:
        m['not_applicable'].append({'property': p, 'reason': checks.NOT_APPLICABLE[p]})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check under construction'})
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
