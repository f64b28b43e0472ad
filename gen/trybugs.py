#!/usr/bin/env python3
"""Development tool: applies each planted bug to /repo, runs checks, undoes it.
usage: gen/trybugs.py [--all] [NAME...]   --all: every claimed check, not only that of the bug's property"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; every = "--all" in args; names = [a for a in args if a[0] != "-"] or sorted(os.listdir(ROOT + "/seeded"))
def git(*a): subprocess.run(["git", "-C", "/repo"] + list(a), check=True)
for n in names:
    d = "%s/seeded/%s" % (ROOT, n)
    own = json.load(open(d + "/meta.json"))["property"]
    todo = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]] if every else [own]
    git("apply", d + "/patch.diff")
    res = []
    try:
        for p in todo:
            t = time.time()
            r = subprocess.run([ROOT + "/bin/check", p], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
            res.append((p, "caught" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "rc%d" % r.returncode, time.time() - t))
    finally: git("checkout", "--", ".")
    print(n, "own=" + own, *["%s:%s(%.0fs)" % x for x in res if every is False or x[1] != "quiet"], flush=True)
