"""Long random programs on the real code, and what TLC says of them (spec/Trace.tla)."""
import hashlib, json, os, re, shutil, subprocess, tempfile, time
from vt import tlc
from vt.families import EDIT, SIB, COPY, WRITE, OPER, MIT, READ, WALK, RCN, OWNOPS, RCOPS
ROOT, BUILD = tlc.ROOT, tlc.BUILD

def p(ops, steps=500, n=8, ns=8, nodes=120, recipes="SPMM"): return dict(ops=ops, steps=steps, n=n, ns=ns, nodes=nodes, recipes=recipes)
LISTS = ["new", "newf", "drop", "pushf", "pushb", "popf", "popb", "prep", "app", "insp", "insn", "det", "clone"]
PROGRAMS = {
    "p_edit": p(EDIT + SIB + ["clone", "clonef", "aband", "into", "inext", "intobfs", "rebuild"] + MIT, nodes=150),
    "p_own":  p(OWNOPS + MIT + OPER + WALK + ["unwalk"], nodes=150),
    "p_walk": p(LISTS + WALK * 2 + ["unwalk", "clonef", "sub"]),
    "p_rc":   p(LISTS + RCOPS + ["w"], nodes=80),
    "p_brw":  p(LISTS + ["rc", "hclone", "hfront", "hback", "ref", "mut", "gw", "ref", "mut", "gw", "ext", "w", "iterrc", "rnext", "up", "down"], nodes=60),
    "p_all":  p(OWNOPS + MIT + OPER + WALK + ["unwalk"] + RCOPS, nodes=150),
    # for Miri
    "p_mini": p(OWNOPS + MIT + OPER + WALK + ["unwalk"] + RCOPS, nodes=16, steps=90, ns=6, recipes="PMMS"),
}
CLASS = dict(OutOK="panic", ResOK="res", DropOK="drop", KindOK="kind", ShapeOK="shape", CountOK="count", NavOK="nav", SeenOK="obs", TextOK="text")

def drive(cmd, name, seed, thorough, d, env=None, recipes=None):
    """Runs the programs; per program its log and what was wrong with it without asking TLC."""
    f = PROGRAMS[name]; n, steps = f["n"], f["steps"] * (6 if thorough else 1)
    ps = []
    for i in range(n):
        log = os.path.join(d, "%s-%d.ndjson" % (name, i))
        ps.append((log, subprocess.Popen(cmd + ["drive", "--ns", str(f["ns"]), "--nodes", str(f["nodes"]), "--steps", str(steps), "--recipe", (recipes or f["recipes"])[i % len(recipes or f["recipes"])], "--seed", str(seed * 1000 + i),
                  "--ops", ",".join(f["ops"]), "--out", log] + ["--reread", "all"], env=env, cwd=os.path.join(ROOT, "harness"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)))
    res, end = [], time.time() + (120 if env is None else 400) * (4 if thorough else 1)
    for log, q in ps:
        try: out = q.communicate(timeout=max(1, end - time.time()))[0]; rc = q.returncode
        except subprocess.TimeoutExpired: os.killpg(q.pid, 9); out = q.communicate()[0]; rc = None
        lines = open(log, errors="replace").read().split("\n") if os.path.exists(log) else [""]
        bad = None
        if rc == 3: raise tlc.ToolError("program %s: %s" % (log, out[-2000:]))
        elif rc is None and env is None: bad = ["hang"]
        elif rc == 1 and "DIFFERENCE" in out: bad = json.loads(re.search(r"DIFFERENCE (.*)", out).group(1))["class"]
        elif "memory leaked" in out: bad = ["leak"]
        elif "Undefined Behavior" in out: bad = ["mem"]
        elif rc and env is not None: raise tlc.ToolError("Miri failed:\n" + out[-3000:])
        elif rc: bad = ["crash"]
        if lines[-1]:      # the operation that did not come back
            m = re.match(r'\{"o":"(\w+)"', lines[-1]); op = m.group(1) if m else "?"
            open(log, "w").write("\n".join(lines[:-1]) + "\n")
        else: op = (json.loads(lines[-2])["o"] if len(lines) > 1 else "?") if bad else None
        if bad and set(bad) & {"leak"} and not lines[-1]: op = None          # seen at the end only
        res.append(dict(log=log, steps=len(lines) - 1, fail=dict(op=op, at=len(lines) - 1, report={"class": bad, "got": out[-600:]}) if bad else None, unfinished=rc is None))
    return res

def check(name, logs):
    """TLC on the logs: None, or (index of the log, line, operation, invariant, what TLC printed)."""
    f = PROGRAMS[name]
    h = hashlib.sha1()
    for n in ("Trees.tla", "TreesObs.tla", "Trace.tla"): h.update(open(os.path.join(tlc.SPEC, n), "rb").read())
    h.update(repr(sorted(set(f["ops"]))).encode())
    for x in logs: h.update(open(x, "rb").read() + b"|")
    d = os.path.join(BUILD, "graphs"); os.makedirs(d, exist_ok=True)
    keep = os.path.join(d, "trace-%s.ok" % h.hexdigest()[:20])
    if os.path.exists(keep): return None
    tmp = tempfile.mkdtemp(prefix="vt-tlc-")
    try:
        open(os.path.join(tmp, "M.tla"), "w").write("---- MODULE M ----\nEXTENDS Trace\nFamStarts == {<<>>}\nFamLogs == <<%s>>\n====\n" % ", ".join('"%s"' % x for x in logs))
        open(os.path.join(tmp, "M.cfg"), "w").write("CONSTANTS\n MaxId=%d\n NS=%d\n MaxDepth=0\n Few=0\n Depth=0\n Starts <- FamStarts\n Logs <- FamLogs\n Ops={%s}\nINIT TInit\nNEXT TNext\nINVARIANTS %s\n"
            % (f["nodes"] + 2, f["ns"], ",".join('"%s"' % o for o in sorted(set(f["ops"]))), " ".join(CLASS)))
        q = subprocess.run(tlc.java(tmp) + ["-noGenerateSpecTE", "-workers", "8", "-config", "M.cfg", "-metadir", os.path.join(tmp, "md"), "M.tla"], cwd=tmp, capture_output=True, text=True, timeout=1500)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    t = q.stdout
    if q.returncode == 0:
        open(keep, "w").write(name); return None
    m = re.search(r"Error: Invariant (\w+) is violated", t); dead = "Deadlock reached" in t
    pos = re.findall(r"^/\\ (tr|l) = (\d+)$", t, re.M)
    if not (m or dead) or len(pos) < 2: raise tlc.ToolError("TLC failed on a log of %s:\n%s" % (name, t[:1500] + t[-1500:]))
    at = {k: int(v) for k, v in pos}          # the last ones
    lines = open(logs[at["tr"] - 1]).read().splitlines()
    line = at["l"] if dead else at["l"] - 1
    e = json.loads(lines[line - 1])
    last = re.findall(r"^/\\ last = (\[.*?\])$", t, re.M | re.S)
    return at["tr"] - 1, line, e["o"], m.group(1) if m else "disabled", " ".join(last[-1].split())[:400] if last else ""

def run(cmd, name, seed=1, thorough=False, env=None, recipes=None):
    """Returns (failures, programs accepted, steps)."""
    d = tempfile.mkdtemp(prefix="vt-run-")
    try:
        rs = drive(cmd, name, seed, thorough, d, env, recipes)
        fails = [dict(x["fail"], log=x["log"]) for x in rs if x["fail"]]
        logs = [x["log"] for x in rs if x["steps"]]
        while logs and len(fails) < 12:
            r = check(name, logs)
            if not r: break
            i, line, op, inv, last = r
            fails = [x for x in fails if x["log"] != logs[i]]       # what came first counts
            fails.append(dict(log=logs[i], op=op, at=line, report={"class": ["res"] if inv == "disabled" else [CLASS[inv]], "got": open(logs[i]).read().splitlines()[line - 1][:1500], "expected": last or inv}))
            logs.pop(i)
        for x in fails: x["kind"] = "program"; x["program"] = [json.loads(l) for l in open(x["log"]).read().splitlines()[:x["at"]]]; x["log"] = os.path.basename(x["log"])     # a name, the same for the same program
        return fails, len(logs), sum(x["steps"] for x in rs)
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    import sys
    for n in sys.argv[1:] or PROGRAMS:
        t0 = time.time()
        fails, ok, steps = run([tlc.last_build()], n)
        print("%-7s %d programs accepted, %d steps, %.1f s" % (n, ok, steps, time.time() - t0), [(x["op"], x["at"], x["report"]["class"], x["report"]["got"][:300], x["report"].get("expected")) for x in fails[:2]], flush=True)
