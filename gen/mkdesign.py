#!/usr/bin/env python3
"""Refreshes the lists of families in DESIGN.md from vt/checks.py, and the table of planted bugs from seeded/."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vt.checks import checks
q, t = checks(False), checks(True)
def names(items):
    out, more = [], {}
    for i in items:
        n = i.get("fam") or i.get("prog") or i.get("spec") or "auto traits"
        if i.get("miri"): n += "*"
        if n not in out: out.append(n)
    return out
d = open(R + "/DESIGN.md").read()
def sub(m):
    p = m.group(1); a = names(q[p]); b = [n for n in names(t[p]) if n not in a]
    return "- **%s**%s\n  Families: %s%s.\n" % (p, m.group(2), " ".join(a), "; thorough also " + " ".join(b) if b else "")
d = re.sub(r"^- \*\*(P\d+)\*\*(.*?)\n  Families:.*?\n", sub, d, flags=re.M | re.S)
rows = []
for n in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, n)))
    rows.append((m["property"], n, m["what_it_breaks"].split("\n")[0][:150]))
tab = "\n".join("| %s | %s | %s |" % r for r in sorted(rows))
d = re.sub(r"(<!-- bugs -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "| caught by | bug | what it breaks |\n|---|---|---|\n" + tab + "\n" + m.group(2), d, flags=re.S)
open(R + "/DESIGN.md", "w").write(d)
