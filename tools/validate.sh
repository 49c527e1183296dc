#!/bin/bash
cd /verif && python3 tools/props.py && python3-vt - <<'P'
import json,jsonschema,os,glob
ps=json.load(open('/root/.vp/PROPERTIES.schema.json')); ms=json.load(open('/root/.vp/MANIFEST.schema.json')); es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    for e in jsonschema.Draft202012Validator(ps).iter_errors(d): print(d['id'], e.message[:200])
for e in jsonschema.Draft202012Validator(ms).iter_errors(json.load(open('/verif/MANIFEST.json'))): print(e.message[:200])
for f in glob.glob('/verif/evidence/*.json'):
    for e in jsonschema.Draft202012Validator(es).iter_errors(json.load(open(f))): print(f,e.message[:200])
P
