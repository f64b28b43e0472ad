#!/usr/bin/env python3
"""Development tool: systematic small changes of the sources; those that compile and pass the tests are replayed
against all quick families.  usage: gen/mutate.py OUT.jsonl [WORKERS] [FILE...]"""
import json, os, re, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vt.families import FAM
from vt.checks import checks
from vt import tlc
OUT = sys.argv[1]; NW = int(sys.argv[2]) if len(sys.argv) > 2 else 4
FILES = sys.argv[3:] or ["node.rs", "rc.rs", "iter_rc.rs", "walk.rs", "bfs_impls.rs", "bfs.rs", "iter.rs", "into_iter.rs", "heap.rs", "node_vec.rs", "tree.rs", "forest.rs", "macros.rs", "notation.rs", "tuple.rs"]
SWAPS = [("head", "tail"), ("prev", "next"), ("push_front", "push_back"), ("pop_front", "pop_back"), ("front", "back"), ("Begin", "Leaf"), ("End", "Begin"), ("Up", "Down"), ("Right", "Down"),
         ("prepend", "append"), ("is_some", "is_none"), ("true", "false"), ("degree", "descendants"), ("incr", "decr"), ("Less", "Greater"), ("Piled", "Scattered"), ("PiledNone", "ScatteredNone"), ("bfs", "bfs_children"),
         ("insert_prev_sib", "insert_next_sib"), ("set_head", "set_tail"), ("borrow", "borrow_mut"), ("node_borrow", "node_borrow_mut"), ("Branch", "Leaf"), ("preorder", "postorder"), ("first", "last"), ("parent", "child"), ("lhs", "rhs")]
SYM = [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), (" > ", " >= "), (" < ", " <= "), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="), ("+ 1", "+ 2"), ("+1", "+2"), ("- 1", "- 2"), ("-1", "-2"), ("-2", "-1"), ("+ 1", ""), ("+1", ""), ("- 1", ""), ("-1", ""), ("!", "")]
def body(lines):
    """indices of the lines of code proper"""
    r = []
    for i, l in enumerate(lines):
        if re.match(r"#\[cfg\( *(miri|test) *\)\]", l.strip()) and i + 1 < len(lines) and "mod" in lines[i + 1]: break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#") or s.startswith("pub use") or len(l) > 600: continue
        r.append(i)
    return r
def mutants():
    for f in FILES:
        text = open("/tmp/mutbase/src/" + f).read(); lines = text.split("\n")
        for i in body(lines):
            l = lines[i]; code = l.split("//")[0]
            seen = set()
            def emit(new, what):
                if new != l and new not in seen:
                    seen.add(new); return [(f, i, l, new, what)]
                return []
            s = code.strip()
            if s.endswith(";") and not s.startswith("let ") and s not in ("break;",): yield from emit(re.match(r"\s*", l).group(0), "delete")
            for a, b in SWAPS:
                for x, y in ((a, b), (b, a)):
                    for m in re.finditer(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % x, code):
                        yield from emit(l[:m.start()] + y + l[m.end():], "%s->%s" % (x, y))
            for a, b in SYM:
                for m in re.finditer(re.escape(a), code):
                    if a == "!" and (m.start() + 1 < len(code) and code[m.start() + 1] in "=(" or m.start() > 0 and code[m.start() - 1].isalnum()): continue
                    yield from emit(l[:m.start()] + b + l[m.end():], "%s->%s" % (a, b))
            for m in re.finditer(r"(?<![A-Za-z0-9_.])([012])(?![A-Za-z0-9_.])", code):
                for y in "012":
                    if y != m.group(1): yield from emit(l[:m.start()] + y + l[m.end():], "%s->%s" % (m.group(1), y))
            m = re.search(r"Some\( *[a-z_.()]+ *\)", code)
            if m and "if let" not in code and "while let" not in code and "=>" not in code[m.end():]: yield from emit(l[:m.start()] + "None" + l[m.end():], "Some->None")
            m = re.match(r"(\s*(?:\} else )?(?:if|while) )(?!let )(.*?)( \{.*)$", code)
            if m:
                yield from emit(m.group(1) + "true" + m.group(3), "cond true"); yield from emit(m.group(1) + "false" + m.group(3), "cond false")
fams = []
for items in checks(False).values():
    for it in items:
        if it["fam"] not in fams and not FAM[it["fam"]].get("sim"): fams.append(it["fam"])
base = tlc.last_build()
graphs = {n: tlc.graph(n, FAM[n], base)[0] for n in fams}
order = sorted((n for n in fams if FAM[n].get("mod") != "Tuple"), key=lambda n: os.path.getsize(graphs[n]))
lock = threading.Lock(); Q = queue.Queue()
done = set()
if os.path.exists(OUT):
    for l in open(OUT): d = json.loads(l); done.add((d["f"], d["i"], d["new"]))
for m in mutants():
    if (m[0], m[1], m[3]) not in done: Q.put(m)
print("mutants:", Q.qsize(), flush=True)
def sh(cmd, cwd, env=None, t=120):
    try: p = subprocess.run("ulimit -v 12000000; exec timeout -k 5 %d %s" % (t, cmd), shell=True, cwd=cwd, env=env, capture_output=True, text=True); return p.returncode, p.stdout + p.stderr
    except Exception as e: return 99, str(e)
def worker(k):
    w = "/tmp/mut%d" % k
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    subprocess.run("rsync -a --exclude target %s/harness/ %s/harness/ 2>/dev/null || cp -a %s/harness %s/harness" % (ROOT, w, ROOT, w), shell=True)
    c = open(w + "/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % w); open(w + "/harness/Cargo.toml", "w").write(c)
    env = dict(os.environ, RUSTFLAGS="-A warnings", CARGO_NET_OFFLINE="true")
    henv = dict(env, CARGO_TARGET_DIR=w + "/ht")
    while True:
        try: f, i, old, new, what = Q.get_nowait()
        except queue.Empty: break
        p = w + "/repo/src/" + f
        text = open("/tmp/mutbase/src/" + f).read(); lines = text.split("\n"); lines[i] = new
        open(p, "w").write("\n".join(lines))
        res = dict(f=f, i=i, old=old.strip(), new=new, what=what)
        rc, o = sh("cargo check --offline --quiet", w + "/repo", env)
        if rc: res["r"] = "nocompile"
        else:
            rc, o = sh("cargo test --offline --quiet --lib -- --test-threads 2", w + "/repo", env, 60)
            if rc == 0: rc, o = sh("cargo test --offline --quiet --doc -- --test-threads 4", w + "/repo", env, 100)
            if rc: res["r"] = "tests"
            else:
                rc, o = sh("cargo build --offline --quiet --release", w + "/harness", henv, 300)
                if rc: res["r"] = "harness does not build"; res["log"] = o[-500:]
                else:
                    res["r"] = "SURVIVES"; res["by"] = []
                    exe = w + "/ht/release/vharness"
                    for n in order:
                        out = w + "/o.json"
                        if os.path.exists(out): os.remove(out)
                        if FAM[n].get("mod"): cmd = "%s cases --cases %s --out %s --own cmp,text --procs 2" % (exe, graphs[n], out)
                        else: cmd = "%s replay --graph %s --ns %d --out %s --seed 1 --procs 2 --recipes S,P,M" % (exe, graphs[n], FAM[n]["ns"], out)
                        rc, o = sh(cmd, w, env, 300)
                        if rc: res["r"] = "caught"; res["by"].append(n if rc == 1 else "%s rc%d" % (n, rc)); break
                    if res["r"] == "SURVIVES" and f in ("tuple.rs", "node_vec.rs"):
                        rc, o = sh("cargo build --offline --quiet --profile tup --features tuples", w + "/harness", henv, 400)
                        out = w + "/o.json"
                        rc, o = sh("%s/ht/tup/vharness cases --cases %s --out %s --own calls,build --procs 2" % (w, graphs["tuple"], out), w, env, 300)
                        if rc: res["r"] = "caught"; res["by"].append("tuple")
        open(p, "w").write(text)
        with lock: open(OUT, "a").write(json.dumps(res) + "\n")
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(NW)]
for t in ts: t.start()
for t in ts: t.join()
