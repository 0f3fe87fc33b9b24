#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property whose driver exists."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
NOTE = ('TLC exhausts the design model within its constants and judges every recorded call of the real code against the '
        'specification (exhaustive over small inputs, seeded random over larger ones); trusts TLC, the JSON recorder and the encoders; '
        'inputs beyond the recorded ones are not covered.')
for p in props:
    drv = V + '/harness/drivers/%s.py' % p['id'].lower()
    if os.path.exists(drv):
        checks.append(dict(property=p['id'], quick_cmd='harness/check.sh %s quick' % p['id'],
                           thorough_cmd='harness/check.sh %s thorough' % p['id'],
                           technique='TLA+ specification: TLC model checking plus trace validation of the real code',
                           level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=p['id'], reason='not built yet'))
json.dump(dict(version=1, setup_cmd='bash harness/setup.sh', checks=checks, not_applicable=na),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
