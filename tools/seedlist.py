#!/usr/bin/env python3
"""Rewrites the list of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append("* `%s` (%s): %s. Needs %s." % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
p = root + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeded -->"), s.index("<!-- /seeded -->")
open(p, "w").write(s[:a] + "<!-- seeded -->\n" + "\n".join(out) + "\n" + s[b:])
