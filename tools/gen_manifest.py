#!/usr/bin/env python3
"""writes MANIFEST.json: claimed = the properties that have a module in harness/props"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "props", i.lower() + ".py")):
        c = NOTES["checks"][i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=c[0], level="model_checking", level_note=c[1]))
    else: na.append(dict(property=i, reason=NOTES["not_applicable"].get(i, "no check yet: the specification does not cover it at this point")))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="cfg(hibou_verif)", enable="cargo rustc --bin hibou_label -- --cfg hibou_verif with HIBOU_VERIF_DRIVER naming the driver source of /verif/driver (harness/sut.py)",
                    source_commits=["beb0277ebd05c09c486d4e8b471d8ce1f0f95e35"]),
         checks=checks, not_applicable=na, notes=NOTES.get("notes", ""))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
