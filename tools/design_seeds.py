#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = []
for d in sorted(glob.glob(root + "/seeded/s*/")):
    m = json.load(open(d + "meta.json"))
    lines.append(f"* {os.path.basename(d[:-1])} ({m['property']}): {m['what_it_breaks']} Caught by {m['property']}.")
p = root + "/DESIGN.md"
s = open(p).read()
first, last = s.index("\n* s01-") + 1, [x for x in re.finditer(r"^\* s\d\d-.*$", s, re.M)][-1].end()
open(p, "w").write(s[:first] + "\n".join(lines) + s[last:])
