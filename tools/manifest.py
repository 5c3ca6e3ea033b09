#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
m = dict(version=1, setup_cmd="python3 bin/check.py --setup", checks=[], not_applicable=[],
         hooks=json.load(open(V + "/tools/hooks.json")) if os.path.exists(V + "/tools/hooks.json") else dict(guard="none", enable="no hooks are compiled into the repository; monitors are added through a go build overlay", source_commits=[]),
         notes="Every check builds its monitors from /repo's working tree through a go build overlay with the race detector on. known-findings.txt lists recorded and repaired defects.")
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 bin/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + i,
                                technique=c.get("technique", "runtime monitoring of generated workloads against a reference model, with the race detector"),
                                level=c.get("level", "exploration"),
                                level_note=c.get("note", "Held on the executions counted in the evidence; the reference model and the generators are trusted.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=na.get(i, "The monitor for this property is not built yet.")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
