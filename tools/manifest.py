#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=c.get("technique", "symbolic execution of the real code's LLVM IR; every assertion decided by an SMT solver (z3) for all values within bounds, counterexamples replayed natively"),
                           level="model_checking", level_note=c.get("note") or ("Bounds: " + c.get("bounds", "see DESIGN.md") + " Outside: " + c.get("outside", "see DESIGN.md"))))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check has been built for this property yet")))
m = dict(version=1, setup_cmd="bash engine/build.sh build", checks=checks, not_applicable=na,
         notes="Every check compiles the named sources of /repo's working tree and one harness to LLVM IR, links and executes them symbolically (engine/), and replays counterexamples with a sanitizer build of the same sources. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
