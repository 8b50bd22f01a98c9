#!/usr/bin/env python3
"""Prints DESIGN.md's table of planted bugs and puts it in its place."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedspecs import SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for s in sorted(SEEDS, key=lambda s: s["id"]):
    rows.append("| %s | `check %s` | %s |" % (s["id"], s["property"], s["needs"].replace("|", "\\|")))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t)
open(p, "w").write(t)
