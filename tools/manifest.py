#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property claimed in tools/claims.txt."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
claims = {}
na = {}
for l in open(f"{root}/tools/claims.txt"):
    l = l.strip()
    if not l or l.startswith("#"):
        continue
    f = [x.strip() for x in l.split("|")]
    if f[1] == "NA":
        na[f[0]] = f[2]
    else:
        claims[f[0]] = f
checks = []
for p in props:
    i = p["id"]
    if i in claims:
        _, h, level, technique, note = claims[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {h} {i} --tier quick",
            "thorough_cmd": f"./run.sh {h} {i} --tier thorough",
            "technique": technique,
            "level": level,
            "level_note": note,
        })
    elif i not in na:
        na[i] = "the check for this property is not built yet"
harnesses = sorted({c[1] for c in claims.values()})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh " + " ".join(harnesses),
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
    "notes": "Every check rebuilds its harness from /repo's working tree (run.sh) before it explores.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
