"""Validates properties.jsonl, MANIFEST.json and evidence against the schemas (run with /opt/veriftools/pyvenv/bin/python)."""
import json, pathlib, re, sys
import jsonschema
R = pathlib.Path(__file__).resolve().parent.parent
S = pathlib.Path("/root/.vp")
ld = lambda p: json.loads(pathlib.Path(p).read_text())
ps = ld(S / "PROPERTIES.schema.json"); bad = 0
for l in (R / "properties.jsonl").read_text().splitlines():
    d = json.loads(l)
    for e in jsonschema.Draft202012Validator(ps).iter_errors(d):
        bad += 1; print(d["id"], e.message[:200])
    if len(d["title"]) > 80: bad += 1; print(d["id"], "title", len(d["title"]))
    n = len(re.findall(r"[.!?](?:\s|$)", d["statement"]))
    if n > 3: bad += 1; print(d["id"], "sentences", n)
for e in jsonschema.Draft202012Validator(ld(S / "MANIFEST.schema.json")).iter_errors(ld(R / "MANIFEST.json")):
    bad += 1; print("MANIFEST", e.message[:300])
for f in sorted((R / "evidence").glob("*.json")):
    for e in jsonschema.Draft202012Validator(ld(S / "EVIDENCE.schema.json")).iter_errors(ld(f)):
        bad += 1; print(f.name, e.message[:300])
print("bad", bad)
