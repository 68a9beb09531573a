"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
s = s[:s.index("<!-- bugs -->")] + "<!-- bugs -->\n| bug | checks | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    s += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]), m["needs"], m["what_it_breaks"])
open(V + "/DESIGN.md", "w").write(s)
