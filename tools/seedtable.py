#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 6) from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + "/seeded/*/meta.json"):
    d = json.load(open(f))
    rows.append((d["property"], os.path.basename(os.path.dirname(f)), d["needs"], d["what_it_breaks"], d.get("caught_by", "quick check of " + d["property"])))
t = "| property | bug | needs | breaks | caught by |\n|---|---|---|---|---|\n" + "".join("| %s |\n" % " | ".join(r) for r in sorted(rows))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
print(len(rows))
