#!/usr/bin/env python3-vt
"""Validates properties.jsonl, MANIFEST.json and evidence/*.json against their schemas."""
import glob, json, os, sys
import jsonschema
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
bad = 0
def v(obj, schema, what):
    global bad
    for e in jsonschema.Draft202012Validator(schema).iter_errors(obj):
        bad += 1
        print(what, list(e.path), e.message)
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); v(p, S("PROPERTIES"), p["id"])
v(json.load(open(H + "/MANIFEST.json")), S("MANIFEST"), "MANIFEST")
for f in glob.glob(H + "/evidence/*.json"):
    v(json.load(open(f)), S("EVIDENCE"), f)
print("invalid: %d" % bad)
sys.exit(1 if bad else 0)
