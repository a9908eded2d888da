#!/bin/bash
cd "$(dirname "$0")/.." && python3 tools/propdefs.py && python3-vt - <<'P'
import json,jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d, s)
    n=d['statement'].count('. ')+1
    if n>3: print('too many sentences', d['id'], n)
print('valid')
P
