"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s[:s.index("| planted bug |")] + "| planted bug | caught by | needs |\n|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    s += "| %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/").strip())
open(p, "w").write(s)
