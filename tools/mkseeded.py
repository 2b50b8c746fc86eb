"""Rewrites the section of DESIGN.md that lists the planted bugs, from their meta.json."""
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    with open(os.path.join(root, "seeded", d, "meta.json"), encoding="utf8") as f:
        m = json.load(f)
    also = f" ({m['caught_by']})" if m.get("caught_by") else ""
    rows.append(f"| {d} | {m['property']}{also} | {m['what_it_breaks']} | {m['needs']} |")
text = "\n".join(["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|", *rows])
path = os.path.join(root, "DESIGN.md")
with open(path, encoding="utf8") as f:
    s = f.read()
mark = "<!-- planted -->"
if mark not in s:
    s += f"\n## Planted bugs\n\nEvery one is caught by the quick check of its own property, unless said otherwise.\n\n{mark}\n{mark}\n"
s = re.sub(f"{mark}.*{mark}", lambda _: f"{mark}\n{text}\n{mark}", s, flags=re.S)
with open(path, "w", encoding="utf8") as f:
    f.write(s)
