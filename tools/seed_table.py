"""Rewrite the table of planted bugs in DESIGN.md (section 6)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeds -->\n"
res = {}
if os.path.exists(V + "/.cache/plant.json"):
    res = json.load(open(V + "/.cache/plant.json"))
rows = ["| id | check | needs | caught |\n|---|---|---|---|\n"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], res.get(i, {}).get("result", "not run").split("(")[0].strip()))
s = open(V + "/DESIGN.md").read().split(MARK)[0]
open(V + "/DESIGN.md", "w").write(s + MARK + "".join(rows))
