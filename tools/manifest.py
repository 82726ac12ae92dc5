#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
C = {}
def c(crate, ids, technique, note):
    for i in ids.split():
        C[i] = (crate, technique, note)
c("utils", "U01 U02 U03", "model-based random operation sequences and inputs, with shrinking, against naive models",
  "Held on every generated and enumerated case; sizes are bounded (up to some hundred elements per sequence). The models are a sorted multiset, a map, a transitive closure and plain definitions.")
exec(open("tools/claims.py").read()) if os.path.exists("tools/claims.py") else None
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = [{"property": p, "quick_cmd": f"./run.sh {C[p][0]} {p}", "thorough_cmd": f"./run.sh {C[p][0]} {p}",
           "evidence_file": f"evidence/{p}.json", "technique": C[p][1], "level": "exploration", "level_note": C[p][2]}
          for p in props if p in C]
na = [{"property": p, "reason": NA.get(p, "no check yet") if "NA" in globals() else "no check yet"} for p in props if p not in C]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Each check builds its harness crate under /verif/h from /repo's working tree (sources compiled in place against stand-ins for the crates that cannot be fetched) and runs a fixed amount of generated cases."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(checks), "claimed;", [x["property"] for x in na])
