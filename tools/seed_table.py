"""Rewrites the table of planted changes in DESIGN.md (development tool)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seed | property = catching check | needs |", "|---|---|---|"]
for sid in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{sid}/meta.json"))
    rows.append(f"| {sid} | {m['property']} | {m['needs']} |")
s = open(root + "/DESIGN.md").read()
a, rest = s.split("<!-- seeds -->")
_, b = rest.split("<!-- /seeds -->")
open(root + "/DESIGN.md", "w").write(a + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->" + b)
