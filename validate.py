"""python3-vt validate.py: check properties.jsonl, MANIFEST.json and evidence against the schemas."""
import glob, json, jsonschema
S = "/root/.vp/"
ps = json.load(open(S + "PROPERTIES.schema.json"))
ids = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    jsonschema.validate(p, ps)
    ids.append(p["id"])
    n = p["statement"].count(". ") + 1
    if n > 3: print(p["id"], "has", n, "sentences")
m = json.load(open("/verif/MANIFEST.json"))
jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
es = json.load(open(S + "EVIDENCE.schema.json"))
for f in glob.glob("/verif/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), es)
print("valid", len(ids))
