"""Replace the table of planted bugs in DESIGN.md."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MISSED = json.load(open(os.path.join(R, "tools", "seed", "missed.json")))
rows = ["| planted bug | what it breaks | caught by |", "|---|---|---|"]
for d in ("seeded", "seeded_templates"):
    for b in sorted(os.listdir(os.path.join(R, d))):
        m = json.load(open(os.path.join(R, d, b, "meta.json")))
        rows.append(f"| {b}{' (template)' if d != 'seeded' else ''} | {m['what_it_breaks']} | {m['property']}{MISSED.get(b, '')} |")
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = re.sub(r"^PLANTED$|<!-- planted -->.*?<!-- /planted -->", lambda _: t, s, flags=re.S | re.M)
open(p, "w").write(s)
