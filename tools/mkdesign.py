#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from tools/notes.py, known_findings.json and seeded/."""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/notes.py").read())
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
t = open(V + "/tools/DESIGN.in.md").read()
o = []
for p in P:
    i = p["id"]
    n = DESIGN.get(i) or (NOTE.get(i, "").replace(COMMON, "") if i in NOTE else "Not applicable: " + NA[i])
    o.append("* **%s %s** — %s" % (i, p["title"], n))
t = t.replace("@@PROPS@@", "\n".join(o))
k = json.load(open(V + "/known_findings.json"))["findings"]
t = t.replace("@@FINDINGS@@", "\n".join("* %s (%s): %s" % (f["id"], f["status"], f["what"]) for f in k))
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
r = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    r.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], c.get(n, "not run yet")))
t = t.replace("@@SEEDS@@", "\n".join(r))
open(V + "/DESIGN.md", "w").write(t)
