#!/usr/bin/env python3
"""writes MANIFEST.json from units.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from units import PROPS, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "One driver (check.py) for all checks; contracts in proofs/, extraction tool in vx/, concrete cross-check and replay in harness/. No hooks in /repo are needed: the extraction reads private items from the source.",
}
for p in props:
    if p in PROPS:
        c = PROPS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "contract-based deductive verification (Verus) of functions extracted from /repo",
            "level": c.get("level", "proof"),
            "level_note": c.get("note", "") + " Assumes: " + "; ".join(c["assumptions"]) + ".",
        })
        if c.get("theorems"):
            m["checks"][-1]["theorems"] = c["theorems"]
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE[p]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
