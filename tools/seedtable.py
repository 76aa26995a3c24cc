"""Fill the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/" + d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
t = open(H + "/DESIGN.md").read()
tab = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDTABLE" in t:
    t = t.replace("SEEDTABLE", tab)
else:
    t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: tab, t, flags=re.S)
open(H + "/DESIGN.md", "w").write(t)
