#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import plans  # noqa: E402

ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in plans.PLANS:
        t, n = plans.NOTES.get(i, plans.DEFAULT_NOTE)
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i,
                           technique=t, level='model_checking', level_note=n))
m = dict(version=1, setup_cmd='python3 tools/check.py --setup', checks=checks,
         not_applicable=[dict(property=i, reason=plans.NOT_APPLICABLE.get(i, 'its check is still being built'))
                         for i in ids if i not in plans.PLANS],
         notes='TLA+ specifications in spec/, checked with TLC; every behaviour is replayed on the library by harness/. See DESIGN.md.')
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
