"""Writes /verif/MANIFEST.json from the properties that have a check module."""
import json, os
V = "/verif"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NOTE = {
 "model": ("TLA+ specification of the processing pipeline: TLC explores every scenario of a finite family in every order of "
           "actions and checks the declarative invariants; each explored scenario and a seeded set of random models are run "
           "through the real command line, and TLC judges each recorded run against the specification. Bounded: holds on the "
           "scenarios explored; trusts TLC, the YAML/JSON readers and the harness."),
}
T = "TLA+ specification checked with TLC; explored scenarios replayed and recorded runs trace-validated"
extra = json.load(open(f"{V}/tools/notes.json")) if os.path.exists(f"{V}/tools/notes.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/vv/checks/{i.lower()}.py"):
        e = extra.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "technique": e.get("technique", T), "level": "model_checking",
                       "level_note": e.get("level_note", NOTE["model"])})
    else:
        na.append({"property": i, "reason": extra.get(i, {}).get("reason", "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed at the command line and in the output files."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
