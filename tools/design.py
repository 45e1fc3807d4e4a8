"""Fills the generated parts of DESIGN.md (number of repairs, table of planted bugs)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
n = len(json.load(open(os.path.join(here, "known_findings.json")))["fixed"])
rows = ["| id | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
s = s.replace("@NFIX@", str(n)).replace("@SEEDS@", "\n".join(rows))
s = re.sub(r"\d+ repairs, from", "%d repairs, from" % n, s)
s = re.sub(r"\| id \| caught by \| needs \|\n(\|.*\n)+", "\n".join(rows) + "\n", s)
open(p, "w").write(s)
