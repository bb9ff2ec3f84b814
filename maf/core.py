"""Check harness: loads the program once, runs a property's rule, reports."""
import json
import os
import sys
import time
import traceback

from . import build
from .engine import Engine, Program, Rule, Budget, State, V, mk, C, ptr, split, leaves, show, icmp, neg, NULL, TRUE, UNDEF

VERIF = build.VERIF
KNOWN = VERIF + "/known_findings.json"


class AnalysisError(Exception):
    """the rule cannot be applied (vanished anchor, zero instances, budget): neither pass nor violation"""


PROPS = {}


def prop(pid, technique, note, assumptions=(), witness=()):
    def deco(fn):
        PROPS[pid] = {"fn": fn, "technique": technique, "note": note, "assumptions": list(assumptions), "witness": witness}
        return fn
    return deco


class R(Rule):
    """rule base: virtual calls are interface boundaries, unless the rule opens them"""

    def vpolicy(self, E, tid, slot, targets, args):
        return None


class Check:
    def __init__(self, pid, P, tier):
        self.pid = pid
        self.P = P
        self.tier = tier
        self.thorough = tier == "thorough"
        self.viol = {}
        self.obl = {}
        self.fns = set()
        self.sites = 0
        self.steps = 0
        self.samples = []
        self.roots = 0

    # ---- reporting
    def violation(self, key, msg, where=None):
        """key: stable description of the construct (no line numbers)"""
        if key not in self.viol:
            self.viol[key] = (msg, where)

    def ob(self, kind, instance, ok=True, msg=None, where=None, key=None):
        """one obligation: kind (the rule clause), instance (construct); ok False -> violation"""
        d = self.obl.setdefault(kind, {})
        d[instance] = d.get(instance, True) and bool(ok)
        if not ok:
            self.violation(key or "%s: %s" % (kind, instance), msg or kind, where)

    def need(self, kind, n=1):
        k = len(self.obl.get(kind, {}))
        if k < n and not self.viol:
            raise AnalysisError("rule clause '%s' matched %d constructs, expected at least %d" % (kind, k, n))

    def fn(self, *qs, required=True, pred=None):
        r = [f for q in qs for f in self.P.byq.get(q, []) if f.blocks and not f.name.startswith("_ZTh") and (pred is None or pred(f))]
        if not r and required:
            raise AnalysisError("no function %s in the program" % " / ".join(qs))
        return r

    def cls(self, q, required=True):
        r = [i for i in self.P.classes.get(q, [])]
        if not r and required:
            raise AnalysisError("no class %s in the program" % q)
        return r

    def tid(self, q):
        return self.cls(q)[0]

    # ---- running the interpreter
    def run(self, f, rule, args=None, st=None, budget=None, engine=None):
        E = engine or Engine(self.P, rule, budget or (4000000 if self.thorough else 600000))
        if self.thorough and engine is None:
            E.K, E.KLOOP, E.KRET = 10, 4, 6
        rule.chk = self
        try:
            out = E.run(f, args, st)
        except Budget as e:
            raise AnalysisError(str(e))
        self.roots += 1
        self.fns |= E.analysed
        self.sites += E.sites
        self.steps += E.steps
        if len(self.samples) < 6:
            self.samples.append("%s: %d steps, %d exits" % (f.q, E.steps, len(out)))
        return E, out


def where(fn, line=None):
    f = fn.file.replace(build.REPO + "/", "")
    return "%s:%s" % (f, line if line is not None else fn.line)


def load_known():
    if not os.path.exists(KNOWN):
        return {"known": [], "fixed": []}
    with open(KNOWN) as f:
        return json.load(f)


def main(pid, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = VERIF + "/evidence/%s.json" % pid
    rep = VERIF + "/evidence/%s.report.txt" % pid
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    p = PROPS[pid]
    try:
        j = build.build()
        P = Program(j)
        P.units = j["units"]
        P.witness, P.broken = j.get("witness", []), j.get("broken", {})
        ck = Check(pid, P, tier)
        for w in p.get("witness", ()):
            if w in P.broken:
                raise build.BuildError("/verif/witness/%s.cpp does not compile: %s" % (w, P.broken[w]))
        p["fn"](ck)
    except (AnalysisError, build.BuildError) as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 3
    known = {k["construct"]: k for k in load_known()["known"] if k["property"] == pid}
    new = {k: v for k, v in ck.viol.items() if k not in known}
    old = {k: v for k, v in ck.viol.items() if k in known}
    nob = sum(len(d) for d in ck.obl.values())
    ok = sum(1 for d in ck.obl.values() for v in d.values() if v)
    if nob == 0:
        print("ANALYSIS-ERROR property=%s the rule matched no construct" % pid)
        return 3
    e = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the compiled IR of every non-Windows translation unit of the repository plus the "
                           "template instantiations in /verif/witness; nothing is executed. Technique: " + p["technique"],
            "units_compiled": len(P.units), "witness_units": len(P.witness), "witness_units_that_do_not_compile": sorted(P.broken),
            "functions_in_program": sum(1 for f in P.fns.values() if f.blocks and P.is_repo(f)),
            "entry_points_analysed": ck.roots, "functions_analysed": len(ck.fns),
            "call_sites_visited": ck.sites, "abstract_steps": ck.steps,
            "obligations": nob, "discharged": ok,
            "obligations_by_clause": {k: len(v) for k, v in sorted(ck.obl.items())},
            "samples": ck.samples + ["%s: %s" % (k, i) for k, v in sorted(ck.obl.items()) for i in sorted(v)[:3]][:24],
        },
        "assumptions": p["assumptions"] + ["level note: " + p["note"]],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(ev, "w") as f:
        json.dump(e, f, indent=1)
    with open(rep, "w") as f:
        for k, (m, w) in sorted(ck.viol.items()):
            f.write("%s%s\n  rule: %s\n  construct: %s\n  %s\n\n" % ("[known] " if k in known else "", w or "", pid, k, m))
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    for k, (m, w) in sorted(new.items()):
        print("%s: %s\n    %s" % (w or "?", k, m))
    print("%s: %d obligations over %d clauses, %d functions from %d entry points, %d violations, %.1fs" % (
        pid, nob, len(ck.obl), len(ck.fns), ck.roots, len(new), time.time() - t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0
