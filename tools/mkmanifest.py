#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from specs import SPECS
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in SPECS:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    s = SPECS[i]
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": s.get("technique", "property-based testing: differential against a brute-force reference model"),
                   "level": "exploration", "level_note": s.get("note", "Randomised search with an explicit oracle; shows the property on the generated cases, never absence of defects. Trusts the reference model in lib/ref.hpp, the compiler and the sanitizers.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "No hooks: the checks use the friend declarations for the unit tests and compile overlays of defines.hpp.", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
