"""Writes the table of planted bugs in DESIGN.md (between the two marks)."""
import json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(top + "/seeded")):
    m = json.load(open(f"{top}/seeded/{d}/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
p = top + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- end -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
