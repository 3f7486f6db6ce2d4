#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and specs/index.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
idx = {}
checks = []
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        if p.get("state"): d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        f.write(json.dumps(d) + "\n")
        if p["id"] in NOT_APPLICABLE: continue
        idx[p["id"]] = p["spec"]
        checks.append({"property": p["id"], "quick_cmd": "python3-vt engine/check.py %s quick" % p["id"], "thorough_cmd": "python3-vt engine/check.py %s thorough" % p["id"],
                       "technique": p.get("technique", "contract-based deductive verification: weakest-precondition/symbolic-execution VCs generated from the clang AST of the real functions, loop invariants inferred by Houdini over spec templates, discharged by z3/cvc5; failures replayed on the compiled code"),
                       "level": p.get("level", "proof"), "level_note": p["note"]})
json.dump(idx, open(V + "/specs/index.json", "w"), indent=0)
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks")
