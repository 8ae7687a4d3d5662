#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for p in sorted(glob.glob(V + "/seeded/*/meta.json")): t.setdefault(json.load(open(p))["property"], []).append(p.split("/")[-2])
rows = "| check | planted bug |\n|---|---|\n" + "".join("| %s | %s |\n" % (k, ", ".join(t[k])) for k in sorted(t))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"\| check \| planted bug \|\n\|---\|---\|\n(\| .*\n)+", lambda m: rows, s)
s = re.sub(r"Every planted bug(?: \(\d+\))? is caught", "Every planted bug (%d) is caught" % sum(map(len, t.values())), s)
s = re.sub(r"MANIFEST.json lists all \d+\)", "MANIFEST.json lists all %d)" % len(open(V + "/properties.jsonl").readlines()), s)
open(V + "/DESIGN.md", "w").write(s)
print(sum(map(len, t.values())), "planted bugs")
