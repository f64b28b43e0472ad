"""Runs TLC on a configuration of the specification and keeps the packed state graph under build/graphs."""
import hashlib, os, shutil, subprocess, sys, time, tempfile, re, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
class ToolError(Exception): pass

def java(tmp, mem="6g"):
    return ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss256m", "-Djava.io.tmpdir=" + tmp, "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC"]

DEPS = {"Trees": ["Trees.tla", "TreesObs.tla", "Shapes.tla"], "MT": ["Trees.tla", "TreesObs.tla", "TreesMT.tla", "Shapes.tla"], "Compare": ["Compare.tla", "Shapes.tla"], "Tuple": ["Tuple.tla", "Shapes.tla"], "Rebuild": ["Rebuild.tla", "Shapes.tla"]}
def model(f, sim=None):
    """The root module and configuration file of a family."""
    if f.get("mod"):   # cases, not behaviours
        m = "---- MODULE M ----\nEXTENDS %s\n%s\n====\n" % (f["mod"], "\n".join("Fam%s == %s" % kv for kv in f["consts"].items()))
        c = "CONSTANTS\n" + "".join(" %s <- Fam%s\n" % (k, k) for k in f["consts"])
        return m, c + "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n" % f["inv"]
    nt = f.get("nt")
    m = "---- MODULE M ----\nEXTENDS %s, Shapes\nFamStarts == %s\n====\n" % ("TreesMT" if nt else "TreesObs", f["starts"])
    t = "T" if f.get("text") else "MT" if nt else ""
    c = ["CONSTANTS", " MaxId=%d" % f["maxid"], " NS=%d" % f["ns"], " MaxDepth=%d" % f.get("maxdepth", 0), " Few=%d" % f.get("few", 0), " Depth=%d" % f["depth"],
         " Starts <- FamStarts", " Ops={%s}" % ",".join('"%s"' % o for o in f["ops"]), "CHECK_DEADLOCK FALSE"]
    c += ["CONSTANTS", " NT=%d" % nt, "INIT InitMT", "NEXT NextMT", "VIEW ViewMT", "INVARIANT InvMT PrintStateMT", "ACTION_CONSTRAINT PrintEdgeMT", "PROPERTY ThreadsDontShow StaysP"] if nt else \
         ["INIT Init", "NEXT NextB", "VIEW View", "INVARIANT " + ("" if f.get("few") else "Inv ") + "PrintState" + t, "ACTION_CONSTRAINT PrintEdge"]
    c.append("PROPERTY ConserveP" if f.get("prop") else "")
    return m, "\n".join(c) + "\n"

def spec_hash(f):
    h = hashlib.sha1()
    for n in DEPS[f.get("mod") or ("MT" if f.get("nt") else "Trees")]:
        h.update(n.encode()); h.update(open(os.path.join(SPEC, n), "rb").read())
    return h

def run_tlc(tmp, args, out, log, harness, timeout):
    p = subprocess.Popen(java(tmp) + args, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    q = subprocess.Popen([harness, "pack", "--out", out, "--log", log], stdin=p.stdout)
    p.stdout.close()
    try:
        rc = p.wait(timeout=timeout); q.wait(timeout=120)
    except subprocess.TimeoutExpired:
        p.kill(); q.kill(); p.wait(); q.wait()
        raise ToolError("TLC did not finish within %d s" % timeout)
    text = open(log, errors="replace").read()
    if rc != 0 or q.returncode != 0: raise ToolError("TLC failed (%d, %d):\n%s" % (rc, q.returncode, text[-3000:]))
    return text

def stats(text):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    d = dict(generated=0, distinct=0)
    if m: d = dict(generated=int(m[-1][0].replace(",", "")), distinct=int(m[-1][1].replace(",", "")))
    m = re.findall(r"The depth of the complete state graph search is (\d+)", text)
    if m: d["depth"] = int(m[-1])
    m = re.findall(r"PACKED states=(\d+) edges=(\d+) labels=(\d+) steps=(\d+)", text)
    if m: d.update(zip(("states", "edges", "labels", "sim_steps"), map(int, m[-1])))
    return d

def graph(name, f, harness, seed=1, sim=None, timeout=800, verbose=False):
    """Path of the packed graph (or simulated behaviours) of a family, and TLC's statistics."""
    sim = sim or f.get("sim")
    m, c = model(f, sim)
    h = spec_hash(f)
    h.update(repr((m, c, sim, seed if sim else 0)).encode())
    d = os.path.join(BUILD, "graphs"); os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s-%s" % (name, h.hexdigest()[:16]))
    if os.path.exists(base + ".bin") and os.path.exists(base + ".json"):
        st = json.load(open(base + ".json")); st["cached"] = True
        return base + ".bin", st
    for old in os.listdir(d):   # graphs of an older specification
        if re.match(re.escape(name) + r"-[0-9a-f]{16}\.(bin|json)$", old): os.remove(os.path.join(d, old))
    tmp = tempfile.mkdtemp(prefix="vt-tlc-")
    t0 = time.time()
    try:
        open(os.path.join(tmp, "M.tla"), "w").write(m); open(os.path.join(tmp, "M.cfg"), "w").write(c)
        args = ["-workers", "8" if sim else str(os.cpu_count() or 4), "-config", "M.cfg", "-fp", "51", "-metadir", os.path.join(tmp, "md")]
        if sim: args += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(seed)]
        text = run_tlc(tmp, args + ["M.tla"], base + ".tmp%d" % os.getpid(), os.path.join(tmp, "log"), harness, timeout)
        st = stats(text); st["tlc_s"] = round(time.time() - t0, 1); st["cached"] = False
        json.dump(st, open(base + ".json", "w"))
        os.replace(base + ".tmp%d" % os.getpid(), base + ".bin")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return base + ".bin", st

SPECS = {"BlockCount": (["Rmw", "Release", "Acquire"], " Threads={t1,t2,t3}\n N=3\n", "FreedOnce NotEarly NoRace NotForgotten")}
def spec_only(name):
    """Checks a specification that has no behaviours to replay; each switch off must make it fail (it would say nothing otherwise)."""
    sw, consts, inv = SPECS[name]
    h = hashlib.sha1(open(os.path.join(SPEC, name + ".tla"), "rb").read() + repr(SPECS[name]).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "graphs"); os.makedirs(d, exist_ok=True)
    keep = os.path.join(d, "%s-%s.txt" % (name, h))
    if os.path.exists(keep): return open(keep).read().splitlines()
    res = []
    for off in [None] + sw:
        tmp = tempfile.mkdtemp(prefix="vt-tlc-")
        try:
            open(os.path.join(tmp, "M.tla"), "w").write("---- MODULE M ----\nEXTENDS %s\n====\n" % name)
            open(os.path.join(tmp, "M.cfg"), "w").write("CONSTANTS\n" + consts + "".join(" %s=%s\n" % (x, "FALSE" if x == off else "TRUE") for x in sw) + "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n" % inv)
            p = subprocess.run(java(tmp) + ["-workers", "4", "-config", "M.cfg", "-metadir", os.path.join(tmp, "md"), "M.tla"], cwd=tmp, capture_output=True, text=True, timeout=300)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        ok = p.returncode == 0
        if ok == (off is not None): raise ToolError("%s with %s off: %s" % (name, off, p.stdout[-2000:]))
        res.append("%s%s: %s, %d states" % (name, "" if off is None else " without " + off, "holds" if ok else "fails, as it must (%s)" % ", ".join(re.findall(r"Invariant (\w+) is violated", p.stdout)), stats(p.stdout)["distinct"]))
    open(keep, "w").write("\n".join(res) + "\n")
    return res

def last_build():
    return os.environ.get("VHARNESS") or os.path.join(BUILD, "std", "release", "vharness")

if __name__ == "__main__":   # python3 vt/tlc.py NAME... : build graphs and replay them
    sys.path.insert(0, ROOT)
    from vt.families import FAM
    H = last_build()
    for n in sys.argv[1:] or list(FAM):
        f = FAM[n]
        try: b, st = graph(n, f, H)
        except ToolError as e: print(n, "ERROR", str(e)[-1500:]); continue
        t0 = time.time()
        o = "/tmp/vt-%s.json" % n
        if f.get("mod"): cmd = [H if f["mod"] != "Tuple" else os.path.join(BUILD, "tup", "tup", "vharness"), "cases", "--cases", b, "--out", o, "--own", "cmp,text,calls,build,visits"]
        else: cmd = [H, "replay", "--graph", b, "--ns", str(f["ns"]), "--out", o, "--nt", str(f.get("nt", 0))] + (["--reread", os.environ["REREAD"], "--own", os.environ["REREAD"]] if os.environ.get("REREAD") else [])
        p = subprocess.run(cmd, stderr=subprocess.PIPE, text=True)
        r = json.load(open(o)) if os.path.exists(o) else {}
        print("%-8s tlc %5.1fs %7d states %8d edges %6.1f MB | replay %5.1fs %d of %s edges, %s behaviours, %s steps: rc=%d %s" % (n, st["tlc_s"], st["states"], st["edges"], os.path.getsize(b) / 1e6,
              time.time() - t0, r.get("edges_covered", 0), r.get("edges"), r.get("behaviours"), r.get("steps"), p.returncode, p.stderr[-300:]), flush=True)
        for x in r.get("failed", [])[:1]:
            print("   ", str(x.get("recipe")), str(x["report"])[:1000]); print("   ", str([s[0] for s in x.get("behaviour", [])])[-1000:], str(x.get("start") and x["start"][0])[:600], str(x.get("case", ""))[:600])
