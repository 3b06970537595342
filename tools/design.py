#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/{head,tail}.md, the property table and the planted bugs."""
import glob, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import table
HOW = json.load(open(R + "/tools/design/how.json"))
out = open(R + "/tools/design/head.md").read().rstrip() + "\n\n## 3. The properties\n\n"
for p in table.TABLE:
    out += "**%s %s.** %s  \n*Rule:* %s.  *Quantifies over:* %s.  *Anchors:* %s.\n\n" % (
        p["id"], p["title"], HOW.get(p["id"], ""), p["rule"].rstrip("."), p["quant"].rstrip("."), ", ".join("`%s`" % f for f in p["files"]))
out += "## 4. Not claimed\n\nThese belong to the broad guarantees but no static argument in reach decides them here:\n\n"
for n in table.NA:
    out += "* **%s %s.** %s\n" % (n["id"], n["title"], n["reason"])
out += "\n" + open(R + "/tools/design/tail.md").read().rstrip() + "\n"
rows = ""
CAUGHT = json.load(open(R + "/tools/design/caught.json"))
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = m.split("/")[-2]
    rows += "| %s | %s | %s | %s |\n" % (i, d["what_it_breaks"], d["needs"], CAUGHT.get(i, d["property"]))
out = out.replace("@SEEDED@", "| id | what it breaks | needs | reported by |\n|---|---|---|---|\n" + rows)
open(R + "/DESIGN.md", "w").write(out)
