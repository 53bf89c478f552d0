#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (defects, planted bugs) between their markers."""
import glob
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = {}
p = os.path.join(ROOT, "tools", "caught.json")
if os.path.exists(p):
    CAUGHT = json.load(open(p))
rows = ["| id | property | commit | what failed |", "|---|---|---|---|"]
for f in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]:
    rows.append("| %s | %s | %s | %s |" % (f["id"], f["property"], f.get("commit", "open")[:9], f["what"].replace("|", "/")))
seeds = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s | %s |" % (n, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"),
                                            CAUGHT.get(n, m["property"])))
path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
for name, r in (("DEFECTS", rows), ("SEEDED", seeds)):
    block = "<!-- %s -->\n%s\n<!-- /%s -->" % (name, "\n".join(r), name)
    if "@@%s@@" % name in s:
        s = s.replace("@@%s@@" % name, block)
    else:
        s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda _: block, s, flags=re.S)
open(path, "w").write(s)
