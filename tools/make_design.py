#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md (run by hand)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", name, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (name, m["property"], m["what_it_breaks"], m["needs"], notes.get(name, m["property"])))
t = open(os.path.join(V, "DESIGN.md"), encoding="utf8").read()
t = re.sub("<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", t, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf8").write(t)
