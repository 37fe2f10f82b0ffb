#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NA = getattr(checks, "NOT_APPLICABLE", {})
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append(dict(property=i, quick_cmd="python3 run.py check " + i, thorough_cmd="python3 run.py check %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the compiler's LLVM IR of the library with Z3 deciding every path and assertion (bounded); counterexamples replayed on the compiled library",
            level="model_checking",
            level_note="Holds for every value of the symbolic inputs within the bounds: " + checks.CHECKS[i]["bounds"] + ". Outside: " + (checks.CHECKS[i].get("outside") or "anything larger than these bounds") + ". Trusts: " + "; ".join(checks.CHECKS[i]["assume"]) + "; Z3."))
    else:
        out["not_applicable"].append(dict(property=i, reason=NA.get(i, "not claimed yet: its harness is still being built")))
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
