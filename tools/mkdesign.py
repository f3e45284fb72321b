#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (repaired defects, planted bugs)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "DESIGN.md"); s = open(p).read()
d = ["| commit | property | what failed |", "|---|---|---|"]
for l in open(os.path.join(R, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: d.append("| %s | %s | %s |" % (m.group(2), m.group(1), m.group(3)))
t = ["| planted bug | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m = json.load(open(f)); t.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
for k, v in (("defects", d), ("seeds", t)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda m: m.group(1) + "\n".join(v) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
