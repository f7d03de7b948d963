#!/usr/bin/env python3
"""Renders DESIGN.md: tables of planted bugs, of fixes and of findings."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
MISSED = set(open(here + "/tools/missed.txt").read().split())
rows = ["| change | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s%s | %s | %s |" % (i, "\\*" if i in MISSED else "", m["property"], m["needs"].replace("|", "\\|").replace("\n", " ")))
d = json.load(open(here + "/known-findings.json"))
fixed = "\n".join("* " + e["line"][len("fixed: property="):] for e in d["entries"] if e["kind"] == "fixed")
rest = "\n".join("* " + (e.get("line") or e.get("what") or json.dumps(e)) for e in d["entries"] if e["kind"] != "fixed")
s = open(here + "/tools/DESIGN.in.md").read().replace("@TABLE@", "\n".join(rows)).replace("@FIXED@", fixed).replace("@FINDINGS@", rest)
open(here + "/DESIGN.md", "w").write(s)
