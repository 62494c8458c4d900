#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claimed properties below."""
import json, sys
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
exec(open('/verif/tools/claims.py').read())
checks = []
na = []
for p in P:
    i = p['id']
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
                           evidence_file=f'evidence/{i}.json', technique=t, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='All checks explore the real code of /repo; no hooks in /repo are needed, because the seams are in the vendored dependency copies of /verif/vendor, which the harness crate substitutes by [patch.crates-io].')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open('/verif/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), len(na))
