#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
CLAIMED = open(os.path.join(V, "tools", "claimed")).read().split()
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
               evidence_file="evidence/%s.json" % p,
               technique="deterministic simulation with fault injection: " + TECH[p],
               level="exploration", level_note=NOTE.get(p, "") + COMMON) for p in props if p in CLAIMED]
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in CLAIMED]
m = dict(version=1, setup_cmd="bash tools/build.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: mairix's objects are compiled unchanged and their libc calls redirected to the simulator with objcopy. /repo carries only fix: commits (known_findings.jsonl).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
