#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the table below and the properties list."""
import json, jsonschema, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
T = "contract-based deductive verification of the Go code (gocv: SSA -> verification conditions -> z3/cvc5)"
BASE = " Trusted: the gocv translation, the solvers, the assumed standard library contracts listed in the evidence, mathematical int64 arithmetic. A bounded replay of the real code runs beside the proof and supplies failing inputs; it is not counted as proved."
claims = {}
exec(open(root + "/tools/claims.py").read())
checks = []
na = []
for p in props:
    if p in claims:
        level, note = claims[p]
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": T if level == "proof" else T + ", with a labelled bounded stand-in",
                       "level": level, "level_note": note + BASE})
    else:
        na.append({"property": p, "reason": notapp.get(p, "no check is registered yet")})
m = {"version": 1, "setup_cmd": "bash build.sh", "hooks": {"guard": "none", "enable": "no hooks: the contracts live in /verif/specs and are bound to the functions of /repo by name", "source_commits": []},
     "checks": checks, "not_applicable": na}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")
