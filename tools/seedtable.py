"""Development tool: write the table of the planted bugs into DESIGN.md."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | file | breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    p = os.path.join(here, "seeded", d)
    m = json.load(open(os.path.join(p, "meta.json")))
    f = [x[6:].strip() for x in open(os.path.join(p, "patch.diff")) if x.startswith("+++ b/")]
    rows.append(f"| {d} | {', '.join(x.replace('src/eventio/', '') for x in f)} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
