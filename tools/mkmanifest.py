#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/claims.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
claims = json.load(open(root + "/tools/claims.json"))
checks, na = [], []
for p in props:
    c = claims.get(p, {})
    if "note" in c:
        checks.append({"property": p,
            "quick_cmd": "VERIF_TIER=quick ./check.sh " + p,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
            "technique": "contract-based deductive verification of the real Go code (go/ssa VC generator gvc, z3/cvc5), with replay on the real code",
            "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": c.get("na", "contracts not written yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "contracts in contracts/*.gvc; verifier in gvc/; known findings and repaired defects in known-findings.txt; no hooks in /repo are needed"}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
