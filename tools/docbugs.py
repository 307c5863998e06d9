#!/usr/bin/env python3
"""docbugs.py: rewrites DESIGN.md's section 7 (planted bugs and the checks that catch them) from seeded/*/meta.json."""
import json, glob, os, re
rows = []
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m)); b = os.path.basename(os.path.dirname(m))
    files = re.findall(r"^\+\+\+ b/(\S+)", open(os.path.dirname(m) + "/patch.diff").read(), re.M)
    n = d["needs"]; n = n if isinstance(n, str) else "; ".join(n)
    n = n.replace("|", "/").replace("\n", " ")
    if len(n) > 150: n = n[:147].rsplit(" ", 1)[0] + " …"
    rows.append(f"| `{b}` | {d['property']} | {', '.join(f.replace('crates/','').replace('/src','') for f in files)} | {n} |")
s = open("/verif/DESIGN.md").read()
i = s.find("\n## 7.")
if i >= 0: s = s[:i]
s = s.rstrip("\n") + "\n\n## 7. Planted bugs and what catches them\nEvery one is reported (exit 1) by the check of the property it was written against (`tools/bugs.sh`); all but C28's by the comparison of summaries.\n\n| bug | caught by | file | what it needs to show |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open("/verif/DESIGN.md", "w").write(s)
