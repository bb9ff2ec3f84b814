#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tool/props.py and the registered rules"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tool"]
from maf import core
import rules
import props

rules.load()
ids = [p["id"] for p in props.PROPS]
assert len(ids) == len(set(ids))
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        files = sorted({w.split(":")[0] for _, w in p["mech"]})
        for x in files:
            assert os.path.exists("/repo/" + x), (p["id"], x)
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["q"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks, na = [], []
for p in props.PROPS:
    i = p["id"]
    if "na" in p:
        na.append({"property": i, "reason": " ".join(p["na"].split())})
        continue
    if i not in core.PROPS:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    c = core.PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": "static analysis: " + c["technique"], "level": "other", "level_note": c["note"]})
for i in core.PROPS:
    assert i in ids, i
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles the current /repo sources to LLVM IR and analyses it; nothing of /repo is executed. See DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
