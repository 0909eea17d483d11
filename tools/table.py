#!/usr/bin/env python3
"""table.py LOG: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and catch.py's output (bugs not in LOG keep their entry)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
head, rest = d.split("|---|---|---|---|\n", 1)
old = {}
rows = 0
for l in rest.split("\n"):
    if not l.startswith("| "):
        break
    rows += 1
    c = [x.strip() for x in l.strip("|").split(" | ")]
    old[c[0]] = c[-1].strip("@")
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) +(P\d\d) rc=(\d+) .*? \| ?(.*)", l)
    if m:
        h = []
        for x in re.findall(r"%s-(\w+)-\d+\.replay" % m.group(2), m.group(4)):
            if "`%s`" % x not in h:
                h.append("`%s`" % x)
        old[m.group(1)] = ", ".join(h) if m.group(3) == "1" else "not caught"
out = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    n = m["needs"].strip().rstrip(".")
    out.append("| %s | %s | %s | %s |" % (i, m["property"], n[0].lower() + n[1:], old.get(i, "?")))
open(V + "/DESIGN.md", "w").write(head + "|---|---|---|---|\n" + "\n".join(out) + "\n" + "\n".join(rest.split("\n")[rows:]))
