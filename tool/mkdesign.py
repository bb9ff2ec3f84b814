#!/usr/bin/env python3
"""rewrites the generated sections of DESIGN.md from tool/props.py, the rules, the last evidence and seeded/"""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tool"]
from maf import core
import rules
import props

rules.load()
w = lambda s: " ".join(s.split())
out = []
for p in props.PROPS:
    i = p["id"]
    if "na" in p:
        continue
    c = core.PROPS[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(w(p["statement"]) + "\n")
    out.append("*How it is decided.* %s. %s\n" % (c["technique"][0].upper() + c["technique"][1:], w(c["note"])))
    try:
        e = json.load(open(V + "/evidence/%s.json" % i))["coverage"]
        out.append("*Obligations* (oracle: the statement above; one obligation per clause and construct found in the current source; on the tree as committed %s over %s functions from %s entry points):\n" % (
            e["obligations"], e["functions_analysed"], e["entry_points_analysed"]))
        out += ["* %s (%d)" % kv for kv in sorted(e["obligations_by_clause"].items())]
        out.append("")
    except (OSError, KeyError):
        pass
    out.append("*Why tests do not reach it.* Quantifies over %s: %s.\n" % (w(p["q"]), w(p["why"])))
props_txt = "\n".join(out)
na = "\n".join("* **%s %s**: %s" % (p["id"], p["title"], w(p["na"])) for p in props.PROPS if "na" in p)
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], w(m["what_it_breaks"]).replace("|", "/"), w(m["needs"]).replace("|", "/")))
k = json.load(open(V + "/known_findings.json"))
fx = {}
for l in k["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    fx.setdefault(m.group(1), []).append("%s (%s)" % (m.group(3), m.group(2)))
fixed = "\n".join("* **%s**: %s" % (a, "; ".join(b)) for a, b in sorted(fx.items()))
t = open(V + "/DESIGN.md").read()
for name, body in (("properties", props_txt), ("declined", na), ("seeded", "\n".join(rows)), ("fixed", fixed)):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    assert a in t and b in t, name
    t = t[:t.index(a) + len(a)] + "\n\n" + body + "\n" + t[t.index(b):]
open(V + "/DESIGN.md", "w").write(t)
