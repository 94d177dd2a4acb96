#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
claimed = json.load(open("/verif/tools/claimed.json"))
TECH = "contract-based deductive verification of the Go source (govc: contracts over go/ssa, obligations discharged by z3 and cvc5)"
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: contracts live in /verif/specs and are compiled as an overlay of the package they specify"}, "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed["claimed"]:
        c = claimed["claimed"][i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh %s --thorough" % i,
            "technique": TECH, "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": claimed["not_applicable"].get(i, "contracts for it are not finished yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
