#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 tools/gen_manifest.py > MANIFEST.json"""
import json
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
claimed = {}
na = {}
exec(open("tools/claims.py").read())
checks = []
for p in props:
    if p in claimed:
        lvl, note = claimed[p]
        checks.append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "contract-based deductive verification (gvc: weakest preconditions from /repo's Go source, discharged by Z3/cvc5), bounded differential harness for failing inputs",
                       "level": lvl, "level_note": note})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": na.get(p, "check not built yet")} for p in props if p not in claimed],
     "notes": "Contracts in contracts/*.gvc, verifier in gvc/, replay harnesses in harness/<id>/, known findings in known_findings.txt."}
print(json.dumps(m, indent=1))
