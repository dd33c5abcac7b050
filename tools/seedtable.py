#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from /verif/seeded and the lab's results log."""
import json, os, re
res = {}
for l in open("/tmp/seed/results.log", errors="replace"):
    m = re.match(r"(\S+): (.*)", l)
    if m and ("CAUGHT" in m[2] or "MISSED" in m[2]):
        res[m[1]] = [(w, p) for w, p in re.findall(r"(CAUGHT|MISSED) (C\d\d)", m[2])]
rows = ["| bug | needs | breaks | reported by |", "|---|---|---|---|"]
for i in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    r = res.get(i, [])
    hits = ", ".join(p for w, p in r if w == "CAUGHT") or ("not caught" if r else "not run yet")
    rows.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {hits} |")
t = open("/verif/DESIGN.md").read()
a, b = "<!-- seeded:begin -->\n", "<!-- seeded:end -->"
i, j = t.index(a) + len(a), t.index(b)
open("/verif/DESIGN.md", "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
