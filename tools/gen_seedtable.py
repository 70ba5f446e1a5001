"""Fills the seed table and the number of fixes into DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(root, "tools", "seedresults.tsv")
if os.path.exists(p):
    for l in open(p):
        a = l.rstrip("\n").split("\t")
        res[a[0]] = a[1]
rows = ["| seed | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], res.get(d, "not run")))
k = json.load(open(os.path.join(root, "known_findings.json")))
n = sum(1 for e in k["findings"] if e["status"] == "open")
nf = len(k["findings"]) - n if all("status" in e for e in k["findings"]) else 0
s = open(os.path.join(root, "DESIGN.md")).read()
s = re.sub(r"<!--seeds-->.*<!--/seeds-->", lambda _: "<!--seeds-->\n" + "\n".join(rows) + "\n<!--/seeds-->", s, flags=re.S)
s = re.sub(r"Fixed: \S+ records", "Fixed: %d records" % nf, s)
open(os.path.join(root, "DESIGN.md"), "w").write(s)
print(len(rows) - 2, "seeds", nf, "fixed", n, "open")
