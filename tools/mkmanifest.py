#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and the property list."""
import json, sys
sys.path.insert(0, '/verif')
from checks import CHECKS, LEVEL, NOT_APPLICABLE
props = [json.loads(x) for x in open('/verif/properties.jsonl')]
ids = [p['id'] for p in props]
M = dict(version=1, setup_cmd='python3 /verif/tools/setup.py', checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        C = CHECKS[i]
        M['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique='TLA+/TLC: ' + C.get('technique', 'exhaustive model checking of the specification, and trace validation of the real code against it'),
            level=LEVEL.get(i, 'model_checking'),
            level_note=C.get('note', 'Exhaustive on the specification for the stated small constants; the code is bound by replayed TLC behaviours and validated random traces, so a violation needs an input reachable by the drivers.')))
    else:
        M['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check yet')))
json.dump(M, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(M['checks']), 'checks;', [x['property'] for x in M['not_applicable']])
