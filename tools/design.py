#!/usr/bin/env python3
"""Regenerates DESIGN.md."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
from docs import DOCS, IO
NA = getattr(checks, "NOT_APPLICABLE", {})
rd = lambda p: open(os.path.join(V, p)).read()
out = [rd("tools/design_head.md"), "## Properties\n"]
for l in rd("properties.jsonl").splitlines():
  p = json.loads(l); i = p["id"]
  out.append("### %s %s\n" % (i, p["title"]))
  if i in checks.CHECKS:
    d = DOCS.get(i, {})
    hs = checks.CHECKS[i]["harnesses"]
    out.append("* How: %s" % d.get("how", "see harness"))
    out.append("* Harness: %s." % ", ".join("`harness/%s` (%s cases%s)" % (h["src"], len(h["cases"]) if isinstance(h["cases"], list) else h["cases"], ", real arithmetic" if h.get("real") else "") for h in hs))
    out.append("* Bounds: %s." % d.get("bounds", "?"))
    out.append("* Outside: %s." % d.get("outside", "?"))
    for a in d.get("assumptions", []):
      if a != IO: out.append("* Assumption: %s." % a)
    out.append("* Why tests cannot: %s.\n" % d.get("beyond", "?"))
  else:
    out.append("* Not claimed: %s\n" % NA.get(i, "no check has been built for this property yet"))
out.append("## Genuine defects found by the checks\n")
k = json.loads(rd("known_findings.json"))
out.append("Repaired by `fix:` commits in /repo (each check reports them again if they return):\n")
for f in k["fixed"]: out.append("* " + f.replace("fixed: property=", ""))
out.append("\nRecorded, not repaired:\n")
out += ["* %s" % json.dumps(f) for f in k["findings"]] or ["* none"]
out.append("\n## Planted bugs (`seeded/`) and which checks catch them\n")
try: res = json.loads(rd("tools/catches.json"))
except OSError: res = {}
out.append("| change | property | needs | caught by |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
  d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
  out.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "/").replace("\n", " "), res.get(n, "?")))
out.append("")
out.append(rd("tools/design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
