"""Appends the per-property part (tool/_design_body.md) and the table of planted bugs to the DESIGN intro."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/DESIGN.md"
head = open(D).read().split("\n## How each property is decided")[0].rstrip("\n") + "\n"
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["needs"].replace("\n", " ").replace("|", "/"), m.get("caught_by", m["property"])))
open(D, "w").write(head + open(V + "/tool/_design_body.md").read().replace("@@TABLE@@", "\n".join(rows)))
