#!/usr/bin/env python3
"""rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
p = root + "/DESIGN.md"; s = open(p).read(); head, tail = s.split("## 6. Planted bugs", 1)
i = tail.index("| change | property | needs |"); rest = tail[i:].split("\n"); k = 0
while k < len(rest) and rest[k].startswith("|"): k += 1
tail = tail[:i] + "\n".join(["| change | property | needs |", "|---|---|---|"] + rows + rest[k:])
open(p, "w").write(head + "## 6. Planted bugs" + tail)
