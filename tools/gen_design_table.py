#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    caught = m.get("caught_by", [m["property"]])
    f = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (p.split("/")[-2], ", ".join(caught) or "-", f(m["needs"]), f(m["what_it_breaks"])))
path = os.path.join(H, "DESIGN.md")
t = open(path).read()
start = t.index("All are caught by the quick check of their property:") + len("All are caught by the quick check of their property:")
open(path, "w").write(t[:start] + "\n\n" + "\n".join(rows) + "\n")
