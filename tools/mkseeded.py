"""Write the table of planted bugs into DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
total = sum(map(len, by.values()))
rows = ["<!-- seeded: written by tools/mkseeded.py -->", "",
        f"{total} changes are kept.  Each is reported by the quick tier of the check of its own property (run with VERIF_SEED 1 and 2):", "",
        "| check | planted changes it catches |", "|---|---|"]
rows += [f"| {k} | {', '.join(by[k])} |" for k in sorted(by)]
rows += ["", "<!-- end of seeded -->"]
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"@@SEEDED@@|<!-- seeded:.*?<!-- end of seeded -->", lambda m: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
print(total)
