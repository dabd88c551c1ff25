#!/usr/bin/env python3
import sys, json
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from vlib.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = [dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'python3 check.py {p} --tier thorough', evidence_file=f'evidence/{p}.json',
               technique=PROPS[p]['technique'], level=PROPS[p]['level'], level_note=PROPS[p].get('note', PROPS[p]['explanation'])) for p in ids if p in PROPS]
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check is claimed for this property yet')) for p in ids if p not in PROPS]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
