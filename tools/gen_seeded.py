"""Fills the table of planted bugs in DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATE = {"rescale-of-grown-map": "no: writes inside a scoped rescaling added",
        "remembered-cell-impact": "no: the driver now asks again right after a change of a covered cell",
        "nothing-to-match-no-end": "no: scans without (usable) points added",
        }
LATE.update(json.load(open(os.path.join(root, "tools", "late.json"))) if os.path.exists(os.path.join(root, "tools", "late.json")) else {})
rows = ["| bug | property | what it breaks | caught at first |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], LATE.get(d, "yes")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("@SEEDED@", t) if "@SEEDED@" in s else re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
