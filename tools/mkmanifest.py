#!/usr/bin/env python3
"""Write MANIFEST.json from the properties and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {}
exec(open(V + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/machinery/props/%s.py" % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd="python3 bin/check " + i, thorough_cmd="VERIF_TIER=thorough python3 bin/check " + i,
                           evidence_file="evidence/%s.json" % i, technique=NOTE[i][0], level="model_checking", level_note=NOTE[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet: under construction")))
m = dict(version=1, setup_cmd="python3 bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the drivers in /verif/harness link the repository's own sources. Specification language: TLA+ (TLC).")
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not claimed:", [n["property"] for n in na])
