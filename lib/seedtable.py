"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | change | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
p = root + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
