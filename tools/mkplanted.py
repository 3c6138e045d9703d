"""Rewrite the table of planted bugs in DESIGN.md (below the marker line)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..", "seeded")
rows = ["| bug (caught by the check it is named after) | needs | breaks |", "|---|---|---|"]
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    clean = lambda t: t.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d}{' (' + m['note'] + ')' if 'note' in m else ''} | {clean(m['needs'])} | {clean(m['what_it_breaks'])} |")
p = os.path.join(here, "..", "DESIGN.md")
s = open(p, encoding="utf-8").read()
mark = "<!-- planted -->\n"
s = s[: s.index(mark) + len(mark)] + "\n".join(rows) + "\n"
open(p, "w", encoding="utf-8").write(s)
