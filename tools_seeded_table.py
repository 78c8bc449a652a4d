"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| `{d}` | {m['property']} | {m['needs']} |")
text = "| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(r for r in rows) + "\n"
p = f"{here}/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m[1] + text + m[2], s, flags=re.S)
open(p, "w").write(s)
