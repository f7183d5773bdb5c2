"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "P05-senscomma": "missed at first: the exact count of separators and the exhaustive small changes were added",
    "P11-caselabels": "missed at first: generated case items had at most three labels",
    "P15-condstep": "missed at first: the pipeline cases (1-4 steps) were added",
}
rows = ["| bug | breaks when | caught by | note |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", ""))):
    b = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (b, m["needs"], m["property"], MISSED.get(b, "")))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
m = "<!-- CATCH TABLE -->"
t = t[:t.index(m)] + m + "\n" + "\n".join(rows) + "\n"
open(p, "w").write(t)
