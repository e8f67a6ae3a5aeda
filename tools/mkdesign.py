"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(here + "/tools/caught.txt"):
    w = l.split(None, 2)
    if w:
        caught[w[0]] = (w[1], w[2].strip() if len(w) > 2 else "")
rows = ["| bug | property | needs | caught by | remark |", "|-----|----------|-------|-----------|--------|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    by, note = caught.get(b, ("?", ""))
    needs = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], needs.replace("|", "/"), by.replace(",", ", "), note))
p = here + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
