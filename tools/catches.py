"""Writes the table of planted bugs into DESIGN.md (the check that catches each is its property's)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Bugs that no check reports.
MISSED = {}
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append((m["property"], i, m["needs"].replace("|", "\\|"), MISSED.get(i, "caught by " + m["property"])))
rows.sort()
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
head = s.split("<!-- catches -->")[0]
s = head + "<!-- catches -->\n| Bug | Needs | |\n| --- | --- | --- |\n" + "".join(f"| `{i}` | {n} | {c} |\n" for _, i, n, c in rows)
open(p, "w").write(s)
print(len(rows))
