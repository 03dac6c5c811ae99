#!/bin/bash
# author tool: schemas of the committed JSON files
cd "$(dirname "$0")/.." && python3-vt - <<'PY'
import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s)
    assert d['statement'].count('. ')<=2, d['id']
    for f in d['anchors']['files']: assert os.path.exists('/repo/'+f),f
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print('ok')
PY
