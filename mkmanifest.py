#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json
import os

from config import CHECKS

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if c is None:
        missing.append(dict(property=p['id'], reason='No check has been built yet.'))
        continue
    checks.append(dict(property=p['id'], quick_cmd=f'python3 run.py {p["id"]} quick',
                       thorough_cmd=f'python3 run.py {p["id"]} thorough', technique=c['technique'],
                       level='exploration', level_note=c['note']))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=missing,
         notes='All checks are generated-input search (pgregory.net/rapid) in /verif/harness, run by run.py. '
               'There are no hooks in /repo: everything is decided at the public API.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
