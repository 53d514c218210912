#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from the results of cov.sh (/tmp/cov.ID.PROP)."""
import glob, json, os, re
p = "/verif/DESIGN.md"
s = open(p).read()
head = "## Planted bugs and which checks catch them\n"
rows = ["| planted bug | breaks | needs | caught by (first configuration reporting it) |", "|---|---|---|---|"]
old = dict(re.findall(r"^\| (s\S+) \|.*\| ([^|]*) \|$", s, re.M))
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    r = []
    for f in sorted(glob.glob(f"/tmp/cov.{i}.*")):
        t = open(f).read()
        q = f.rsplit(".", 1)[1]
        v = re.search(r"VIOLATION property=(\S+) replay=\S*/(?:C\d\d-)?(.*?)\.json", t)
        r.append(f"{q} ({v.group(2)})" if v else f"not by {q}")
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(r) or old.get(i, '')} |")
k = s.index(head)
open(p, "w").write(s[:k] + head + "\n".join(rows) + "\n")
