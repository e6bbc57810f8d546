#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "tools")]
from checks import CHECKS
from props import PROPS
LN = {"proof": "Holds for every value covered by the abstraction on the listed partitions, not for samples; sound relative to clang's IR, the engine's transfer functions and the harness's reference definitions. ",
      "other": "A complete enumeration of the named constructs in the type-checked IR of the current tree; sound relative to clang's IR and the rule's table. "}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["for_all"]},
             "why_tests_cant": p["tests"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if "state" in p: q["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if "observe" in p: q["anchors"]["observe_at"] = p["observe"]
        q["anchors"]["hook_needed"] = None
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks = []; na = []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": c["technique"], "level": c["level"], "level_note": LN[c["level"]] + " ".join(c.get("assumptions", []))})
    else:
        na.append({"property": i, "reason": p["na"]})
for i in CHECKS: assert i in [p["id"] for p in PROPS], i
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "All checks decide from the LLVM IR of /repo's current sources; nothing of the library is executed. Genuine defects repaired are listed in known-findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
