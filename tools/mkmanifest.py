"""Writes /verif/MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
import sys
sys.path.insert(0, HERE)
from tools.claims import CLAIMS, NA
checks = []
for p in props:
    i = p['id']
    if i in CLAIMS:
        level, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt /verif/vx/run.py %s quick' % i, thorough_cmd='python3-vt /verif/vx/run.py %s thorough' % i,
            technique='contract-based deductive verification of the functions of /repo (contracts in vx/contracts/%s.py, obligations discharged by the guarded-sum normaliser, z3 and cvc5)' % i.lower(),
            level=level, level_note=note))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check is built for it yet')) for p in props if p['id'] not in CLAIMS]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
