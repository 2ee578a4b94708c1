"""Writes the bounds table of DESIGN.md from the evidence files (development tool; run all quick checks first)."""
import json

path = "/verif/DESIGN.md"
text = open(path).read()
rows = ["| id | exact bounds | behaviours | transitions | time |", "|---|---|---|---|---|"]
for i in range(1, 30):
    e = json.load(open(f"/verif/evidence/C{i:02d}.json"))
    c = e["coverage"]
    bounds = c["bounds"].replace("|", "\\|")
    rows.append(f"| C{i:02d} | {bounds} | {c['behaviours_executed']:,} | {c['transitions']:,} | {e['wall_s']:.0f} s |")
head, rest = text.split("<!-- bounds -->")
tail = rest.split("<!-- /bounds -->")[1]
open(path, "w").write(head + "<!-- bounds -->\n" + "\n".join(rows) + "\n<!-- /bounds -->" + tail)
