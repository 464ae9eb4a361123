#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
t = open(V + "/DESIGN.md").read()
a, b = t.split("<!-- seeds -->")[0], t.split("<!-- end -->")[1]
open(V + "/DESIGN.md", "w").write(a + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->" + b)
