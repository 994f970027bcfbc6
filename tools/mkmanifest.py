#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ch, na = [], []
for p in props:
    k = checks.CHECKS.get(p["id"])
    if not k:
        na.append(dict(property=p["id"], reason=checks.NOT_APPLICABLE.get(p["id"], "check not built yet"))); continue
    ch.append(dict(property=p["id"], quick_cmd="python3 tools/runcheck.py " + p["id"], thorough_cmd="python3 tools/runcheck.py " + p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=k.get("technique", "property-based testing: generated cases against an independent reference oracle, with shrinking"), level="exploration",
        level_note=k.get("note", "Randomised search over generated cases in every build configuration; no violation found is not a proof. Trusts gcc, Open MPI and the double-precision reference in the harness.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=ch, not_applicable=na,
  notes="Harness sources in harness/, driver in tools/. Every check compiles /repo/src (content-keyed, incremental) into /verif/build, in the five supported configurations. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(ch), "checks,", len(na), "not applicable")
