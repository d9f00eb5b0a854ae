#!/bin/sh
cd "$(dirname "$0")/.." && python3 tools/props.py && python3-vt - <<'P'
import json,jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), s)
print("valid")
P
