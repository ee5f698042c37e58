#!/usr/bin/env python3-vt
import json, jsonschema, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); jsonschema.validate(d, s); ids.append(d['id'])
m = json.load(open(V + '/MANIFEST.json')); jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
c = {x['property'] for x in m['checks']}; n = {x['property'] for x in m['not_applicable']}
assert c | n == set(ids) and not c & n, (set(ids) - c - n, c & n)
for f in glob.glob(V + '/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('ok', len(ids), 'properties,', len(c), 'checks,', len(n), 'not applicable')
