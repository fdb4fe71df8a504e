#!/usr/bin/env python3
"""Writes DESIGN.md from its hand-written parts, checks.py and the planted bugs."""
import glob, json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); R = os.path.join(T, "..")
sys.path.insert(0, R)
from checks import CHECKS
rd = lambda n: open(os.path.join(T, n)).read()
tail = rd("design_tail.md"); i = tail.index("## 6.")
out = rd("design_head.md") + "\n" + rd("design_props.md") + "\n" + tail[:i]
out += "## 5. Planted bugs\n\nEach was written from the property's text and the code, confirmed (builds, passes the 84 tests, its demonstration\nfails with it and passes without), and then run against the check. `first` says whether the check as it stood\ncaught it, or what had to be strengthened.\n\n| id | property | needs | first |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); out += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/").replace("\n", " "), d.get("first", "caught"))
out += "\n" + tail[i:] + "\n## 7. Jobs\n\n| check | binary | flavor | mode | quick cases | thorough cases |\n|---|---|---|---|---|---|\n"
for p, c in sorted(CHECKS.items()):
    for j in c["jobs"]: out += "| %s | %s | %s | %s | %s | %s |\n" % (p, j["bin"], j["flavor"], j["mode"], j["quick"], j["thorough"])
open(os.path.join(R, "DESIGN.md"), "w").write(out)
