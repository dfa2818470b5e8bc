#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
p = V + "/DESIGN.md"
s = open(p).read()
rows = "".join("| %s | %s |\n" % (k, ", ".join(v)) for k, v in sorted(by.items()))
s = re.sub(r"(\| property \| bugs[^\n]*\n\|---\|---\|\n)(\|[^\n]*\n)*", lambda m: m.group(1) + rows, s)
s = re.sub(r"`seeded/` holds \d+ bugs", "`seeded/` holds %d bugs" % sum(map(len, by.values())), s)
open(p, "w").write(s)
