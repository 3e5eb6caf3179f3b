"""Writes /verif/DESIGN.md from design_body.md, the known-findings file, the planted bugs and notes on their runs."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(H, "tools")
body = open(os.path.join(T, "design_body.md")).read()
known, fixed = [], []
for l in open(os.path.join(H, "known_findings.txt")):
    if l.startswith("known: property="):
        known.append("* **" + l[16:].strip().replace(" :: ", "** — ", 1))
    elif l.startswith("fixed: property="):
        pid, com, what = l[16:].strip().split(" ", 2)
        fixed.append("* %s (`%s`): %s" % (pid, com, what))
find = "Recorded, not repaired (the repository's own tests pin the behaviour, or the repair is not small):\n\n" + \
    "\n".join(known) + "\n\nRepaired by `fix:` commits in /repo:\n\n" + "\n".join(fixed)
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(T, "caught.json")))
S = os.path.join(H, "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s: %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["property"], m["needs"], caught.get(d, "not caught")))
body = body.replace("@@FINDINGS@@", find).replace("@@SEEDED@@", "\n".join(rows))
body = body.replace("@@CAMPAIGN@@", open(os.path.join(T, "campaign.md")).read().strip())
open(os.path.join(H, "DESIGN.md"), "w").write(body)
