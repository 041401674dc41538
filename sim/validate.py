#!/usr/bin/env python3-vt
import json,jsonschema,os,glob
R='/root/.vp/'
s=json.load(open(R+'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
if os.path.exists('/verif/MANIFEST.json'): jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open(R+'MANIFEST.schema.json')))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),json.load(open(R+'EVIDENCE.schema.json')))
print("valid")
