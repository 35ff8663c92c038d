#!/usr/bin/env python3
"""Writes DESIGN.md from design.md.in, the list of fixed defects and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fx = [json.loads(l) for l in open(V + "/known_findings.jsonl")]
F = "\n".join("* " + d["what"].replace("fixed: property=", "**").replace(" ", "** ", 1) if 0 else
              "* **%s** (%s) %s" % tuple(d["what"][len("fixed: property="):].split(" ", 2)) for d in fx)
S = "| id | needs | breaks | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    S += "| %s | %s | %s | %s |\n" % (i, d["needs"].rstrip("."), d["what_it_breaks"].rstrip("."), d.get("caught_by", d["property"] + " (quick)"))
t = open(V + "/tools/design.md.in").read().replace("@FIXES@", F).replace("@SEEDS@", S)
open(V + "/DESIGN.md", "w").write(t)
