#!/usr/bin/env python3
"""Prebuilds every harness of the quick tier (the checks build whatever is missing themselves)."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild
from specs import SPECS
jobs = {}
for pid, s in SPECS.items():
    for i, p in enumerate(s.get("parts", [])):
        if not p.get("thorough_only"):
            jobs[(pid, i)] = (lambda p=p, pid=pid: vbuild.harness(p.get("file", pid), p.get("variant", "default"), p.get("mode", "san"), tuple(p.get("extra", ()))))
    for a in s.get("apps", []):
        jobs[(pid, "app", a)] = (lambda a=a: vbuild.app(*a))
out = vbuild.many(jobs)
bad = {k: v for k, v in out.items() if isinstance(v, vbuild.BuildError)}
for k, v in bad.items():
    print(k, v, file=sys.stderr)
print("built %d of %d" % (len(out) - len(bad), len(out)))
