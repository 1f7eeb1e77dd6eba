"""Writes the table of seeded changes into DESIGN.md (between the SEEDTABLE marks)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- SEEDTABLE -->", "| change | property | needs | caught by (quick) |", "|---|---|---|---|"]
caught = {}
f = os.path.join(here, "tools", "caught.txt")
if os.path.exists(f):
    for l in open(f):
        k, v = l.split(None, 1)
        caught[k] = v.strip()
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, m["property"])))
rows.append("<!-- /SEEDTABLE -->")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = s.replace("@@SEEDTABLE@@", "<!-- SEEDTABLE -->\n<!-- /SEEDTABLE -->")
s = re.sub(r"<!-- SEEDTABLE -->.*<!-- /SEEDTABLE -->", lambda m: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
