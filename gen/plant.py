#!/usr/bin/env python3
"""Development tool: turns bug descriptions (gen/bugs/*.py) into seeded/<id>/ after confirming each in a scratch copy.
usage: gen/plant.py NAME...   (descriptions are read from gen/bugs/*.txt)"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# run in the repository: builds it and demo.rs in a scratch directory, then runs the demonstration
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
rustc --edition 2018 --crate-type rlib --crate-name trees -A warnings%(cfg)s -C debuginfo=0 -O --out-dir "$d" src/lib.rs || exit 2
rustc --edition 2018 -A warnings -C debuginfo=0 --extern trees="$d/libtrees.rlib" -o "$d/demo" "$here/demo.rs" || exit 2
cd "$d" && timeout 60 ./demo
'''
def parse(path):
    bugs = []
    for part in re.split(r"^=== ", open(path).read(), flags=re.M)[1:]:
        name, rest = part.split("\n", 1)
        secs = re.split(r"^--- ", rest, flags=re.M)
        b = dict(id=name.strip(), edits=[])
        for s in secs[1:]:
            k, v = s.split("\n", 1)
            k = k.strip()
            if k.startswith("edit "): 
                old, new = v.split("\n>>>\n")
                b["edits"].append((k[5:], old.rstrip("\n"), new.rstrip("\n")))
            else: b[k] = v.strip("\n")
        bugs.append(b)
    return bugs
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
def stable(out): return {k for k, v in json.load(open(out)).items()} if False else None
def main(names):
    bugs = [b for p in sorted(glob.glob(os.path.join(ROOT, "gen/bugs/*.txt"))) for b in parse(p)]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
    w = tempfile.mkdtemp(prefix="vplant-")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/r"], check=True)
        r = w + "/r"
        for b in bugs:
            if names and b["id"] not in names: continue
            if not names and os.path.exists(os.path.join(ROOT, "seeded", b["id"], "patch.diff")): continue
            sh("git checkout -q -- .", r)
            ok = True
            for f, old, new in b["edits"]:
                t = open(r + "/" + f).read()
                n = t.count(old)
                if n != 1: print(b["id"], "EDIT matches %d times in %s: %r" % (n, f, old[:60])); ok = False; break
                open(r + "/" + f, "w").write(t.replace(old, new))
            if not ok: continue
            d = os.path.join(w, b["id"]); os.makedirs(d, exist_ok=True)
            open(d + "/demo.rs", "w").write(b["demo"] + "\n")
            open(d + "/demo.sh", "w").write(DEMO_SH % dict(cfg=b.get("cfg", "") and " " + b["cfg"])); os.chmod(d + "/demo.sh", 0o755)
            if b.get("script"): open(d + "/demo.sh", "w").write(b["script"] + "\n")
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
            p = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1", r, timeout=600)
            failed = sorted(set(re.findall(r"^test (.*?) \.\.\. FAILED", p.stdout, re.M)))
            passed = len(re.findall(r"^test .*? \.\.\. ok", p.stdout, re.M))
            comp = "could not compile" in p.stdout
            if comp or failed or passed < 100:
                print(b["id"], "TESTS", "compile error" if comp else failed[:4], passed, p.stdout[-1500:] if comp or not failed else ""); continue
            q = sh("sh %s/demo.sh" % d, r)
            if q.returncode == 0: print(b["id"], "DEMO passes with the bug"); continue
            if q.returncode == 2 and "error" in q.stderr and not b.get("script"): print(b["id"], "DEMO does not build", q.stderr[-1200:]); continue
            sh("git checkout -q -- .", r)
            q0 = sh("sh %s/demo.sh" % d, r)
            if q0.returncode: print(b["id"], "DEMO fails without the bug", q0.stdout[-500:], q0.stderr[-1200:]); continue
            dst = os.path.join(ROOT, "seeded", b["id"])
            shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
            print(b["id"], "planted (%s), demo exit %d" % (b["property"], q.returncode), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
main(sys.argv[1:])
