"""Decides a property: replays the behaviours of the specification on the code in /repo."""
import fcntl, json, os, re, shutil, subprocess, sys, time
from vt import tlc, programs
from vt.tlc import ROOT, BUILD, ToolError
from vt.families import FAM
from vt.checks import checks, ALL
SEED = int(os.environ.get("VERIF_SEED") or 1)
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER") or "quick"
PROCS = str(min(16, os.cpu_count() or 4))

def build(kind):
    """The harness, built against /repo as it is now: kind is std, tup (with tuples), nostd, nostdtup,
    pad (large and strictly aligned data) or pod (data without destructors, no debug assertions, all optimisations)."""
    tup = kind.endswith("tup")
    feats = (["tuples"] if tup else []) + (["no_std"] if kind.startswith("nostd") else []) + ([kind] if kind in ("pad", "pod") else [])
    env = dict(os.environ, RUSTFLAGS="-A warnings", CARGO_TARGET_DIR=os.path.join(BUILD, kind), CARGO_NET_OFFLINE="true")
    prof = "tup" if tup else "fast" if kind == "pod" else "release"
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", prof] + (["--features", ",".join(feats)] if feats else [])
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True)
    return (os.path.join(BUILD, kind, prof, "vharness"), None) if p.returncode == 0 else (None, p.stderr[-6000:])
_built = {}
def harness(kind):
    if kind not in _built: _built[kind] = build(kind)
    exe, err = _built[kind]
    if err is not None: raise ToolError("the harness (%s) does not build:\n%s" % (kind, err))
    return exe

MIRI = dict(MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation", CARGO_TARGET_DIR=os.path.join(BUILD, "miri"), RUSTFLAGS="-A warnings", CARGO_NET_OFFLINE="true")
MIRI_CMD = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--"]
def build_miri():
    p = subprocess.run(MIRI_CMD + ["none"], cwd=os.path.join(ROOT, "harness"), env=dict(os.environ, **MIRI), capture_output=True, text=True)
    if p.returncode != 3 or "usage" not in p.stderr: raise ToolError("the harness does not build for Miri:\n" + p.stderr[-4000:])

def miri(exe, fam, graph, item):
    """Executes some behaviours of a family under Miri: any undefined behaviour it sees is a violation."""
    f = FAM[fam]; n = item["miri"]
    if "miri" not in _built: build_miri(); _built["miri"] = True
    d = os.path.join(BUILD, "miri-run-%d" % os.getpid()); os.makedirs(d, exist_ok=True)
    try:
        m = min(int(PROCS), 8)
        cmd = [exe, "export", "--graph", graph, "--out", os.path.join(d, "w"), "--n", str(n), "--m", str(m), "--ns", str(f["ns"]), "--nt", str(f.get("nt", 0)), "--seed", str(SEED), "--maxlen", "12", "--recipes", item.get("recipes", "P,M,P,S")]
        if item.get("only"): cmd += ["--with", ",".join(item["only"])]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise ToolError("export of %s failed: %s" % (fam, p.stderr[-2000:]))
        logs = [open(os.path.join(d, "log%d" % i), "w+") for i in range(m)]
        ps = [subprocess.Popen(MIRI_CMD + ["lines", "--in", os.path.join(d, "w.%d" % i)] + (["--reread", rereads(item)] if rereads(item) else []), cwd=os.path.join(ROOT, "harness"), env=dict(os.environ, **dict(MIRI, MIRIFLAGS=MIRI["MIRIFLAGS"] + (" -Zmiri-ignore-leaks" if item.get("leaky") else ""))), stdout=logs[i], stderr=subprocess.STDOUT, start_new_session=True) for i in range(m)]
        end = time.time() + (400 if TIER != "thorough" else 1800)
        fails, done, late = [], 0, 0
        for i, p in enumerate(ps):
            try: rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait(); rc = None; late += 1
            logs[i].seek(0); t = logs[i].read()
            ws = re.findall(r"^WALK (\d+)", t, re.M)
            done += max(0, len(ws) - (rc != 0))
            if rc in (0, None): continue
            x = re.search(r"^DIFFERENCE (.*)", t, re.M)
            if x: rep = json.loads(x.group(1))
            elif "Undefined Behavior" in t: rep = {"class": ["mem"], "got": t[t.index("error: "):][:1500]}
            elif "memory leaked" in t: rep = {"class": ["leak"], "got": t[t.index("error: "):][:1500]}
            elif "the evaluated program deadlocked" in t: rep = {"class": ["hang"], "got": t[t.index("error: "):][:1500]}
            else: raise ToolError("Miri failed on %s (%s):\n%s" % (fam, rc, t[-3000:]))
            b = json.loads(open(os.path.join(d, "w.json")).read().splitlines()[int(ws[-1]) * m + i])
            own = item["own"]
            if own is None or set(rep["class"]) & set(own): fails.append(dict(b, kind="behaviour under Miri", report=rep))
        return fails, done, late
    finally:
        shutil.rmtree(d, ignore_errors=True)

def violation(prop, rec, n):
    d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    json.dump(rec, open(path, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)

def replay(exe, fam, graph, item, out, own, skip=None):
    f = FAM[fam]
    if f.get("mod"):
        cmd = [exe, "cases", "--cases", graph, "--out", out, "--own", ",".join(own or ["cmp", "text", "calls", "build", "visits"]), "--procs", PROCS]
    else:
        cmd = [exe, "replay", "--graph", graph, "--ns", str(f["ns"]), "--out", out, "--seed", str(SEED), "--procs", PROCS, "--recipes", item.get("recipes", "S,P,M")]
        if f.get("nt"): cmd += ["--nt", str(f["nt"])]
        if own: cmd += ["--own", ",".join(own)]
        if item.get("only"): cmd += ["--only", ",".join(item["only"])]
        if item.get("diff"): cmd.append("--diff")
        if skip: cmd += ["--skip", skip]
        if rereads(item): cmd.extend(["--reread", rereads(item)])
    if os.path.exists(out): os.remove(out)
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode not in (0, 1) or not os.path.exists(out): raise ToolError("replay of %s failed (%d): %s" % (fam, p.returncode, p.stderr[-2000:]))
    return p.returncode, json.load(open(out))

HOW = ("cursor", "bfs", "text", "copy", "cmp", "iter", "itermut", "intoiter", "iterrc", "crowd")     # as in reread.rs
def rereads(item): return "all" if item.get("reread") else ",".join(c for c in HOW if c in (item["own"] or ()))
def program(item, prop):
    """Random programs of one kind: their logs have to be behaviours of the specification."""
    name, th = item["prog"], TIER == "thorough"
    base = [harness("std")]
    if item.get("diff"):          # storage must not show: not what goes wrong with nodes one by one, too
        before, _, _ = programs.run(base, name, SEED, th, recipes="S")
        fails, ok, steps = programs.run(base, name, SEED, th, recipes="MP")
    elif item.get("other"):
        before, _, _ = programs.run(base, name, SEED, th)
        fails, ok, steps = programs.run([harness(item["other"])], name, SEED, th)
    elif item.get("miri"):
        if "miri" not in _built: build_miri(); _built["miri"] = True
        before = []
        fails, ok, steps = programs.run(MIRI_CMD, name, SEED, False, env=dict(os.environ, **MIRI))
    else:
        before = []
        fails, ok, steps = programs.run(base, name, SEED, th)
    fails = [x for x in fails if x["log"] not in [y["log"] for y in before]]
    own, only = item["own"], item.get("only")
    # at the end only, or when reading: no operation to blame
    return [x for x in fails if (own is None or set(x["report"]["class"]) & set(own)) and (not only or x["op"] in only)], ok, steps

def needs_tup(item): return FAM[item["fam"]].get("mod") == "Tuple" or "T" in item.get("recipes", "").split(",")

def run(prop):
    t0 = time.time()
    items = checks(TIER == "thorough")[prop]
    base = harness("std")
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, steps_executed=0, families={}, samples=[], exhaustive=True)
    nviol, log = 0, []
    for item in items:
        fam = item.get("fam"); f = FAM.get(fam)
        if item.get("traits"):
            p = subprocess.run([base, "traits"], capture_output=True, text=True)
            if p.returncode:
                nviol += 1
                violation(prop, dict(kind="auto traits", report=p.stdout), nviol); print("  " + p.stdout.strip())
            continue
        if item.get("spec"):      # a specification of its own, nothing to replay
            for line in tlc.spec_only(item["spec"]): print("  " + line)
            cov["families"][item["spec"]] = dict(model_checked_only=True)
            continue
        if item.get("prog"):
            if nviol: continue
            fails, ok, steps = program(item, prop)
            cov["traces_validated_against_impl"] += ok; cov["steps_executed"] += steps; cov["transitions"] += steps
            name = item["prog"] + "".join("/" + k for k in ("diff", "miri") if item.get(k)) + ("/" + item["other"] if item.get("other") else "")
            cov["families"][name] = dict(programs_accepted=ok, steps=steps)
            for x in fails[:2]:
                nviol += 1
                violation(prop, dict(x, property=prop, family=name), nviol)
                print("  %s, operation %d (%s): %s" % (name, x["at"], x["op"], json.dumps(x["report"])[:700]))
            continue
        g, st = tlc.graph(fam, f, base, seed=SEED)
        if item.get("miri"):
            if nviol: continue
            fails, done, late = miri(base, fam, g, item)
            cov["traces_validated_against_impl"] += done
            cov["families"][fam + "/miri"] = dict(runs=done, unfinished_processes=late)
            for x in fails[:2]:
                nviol += 1
                violation(prop, dict(x, property=prop, family=fam), nviol)
                print("  %s under Miri: %s" % (fam, json.dumps(x["report"])[:800]))
            continue
        tup = needs_tup(item)
        out = os.path.join(BUILD, "out-%s-%d.json" % (prop, os.getpid()))
        try:
            if item.get("other"):     # another build has to do whatever the default one does right
                rc, r0 = replay(harness("tup" if tup else "std"), fam, g, item, out, None)
                skip = None
                if f.get("mod"):
                    if rc: continue        # the default build is wrong itself
                else:
                    skip = out + ".skip"
                    open(skip, "w").write(" ".join(map(str, r0.get("failed_walks", []))))
                try: exe = harness(item["other"] + ("tup" if tup else ""))
                except ToolError as e:
                    nviol += 1
                    violation(prop, dict(kind="build", report="the default build compiles, the %s build does not" % item["other"], stderr=str(e)), nviol)
                    break
                rc, r = replay(exe, fam, g, item, out, None, skip)
                if skip: os.remove(skip)
            else:
                rc, r = replay(harness("tup" if tup else "std"), fam, g, item, out, item["own"])
                if not rc and not tup and not f.get("mod") and not f.get("nt") and not fam.startswith(("ucode", "reent")):
                    rc, r2 = replay(harness("pod"), fam, g, item, out, item["own"])
                    if rc: r["failed"] = [dict(x, build="pod") for x in r2["failed"]]
                    for k in ("runs", "steps"): r[k] += r2.get(k, 0)
        finally:
            if os.path.exists(out): os.remove(out)
        cov["states"] += r.get("states", r.get("cases", 0))
        cov["transitions"] += r.get("edges_covered", 0)
        cov["traces_validated_against_impl"] += r.get("runs", 0)
        cov["steps_executed"] += r.get("steps", 0)
        if f.get("sim"): cov["exhaustive"] = False
        name = fam + ("/" + item["recipes"] if item.get("recipes") else "") + ("/" + item["other"] if item.get("other") else "")
        cov["families"][name] = dict(states=r.get("states", r.get("cases", 0)), transitions=r.get("edges_covered", 0), runs=r.get("runs", 0), run_ms=r.get("run_ms"),
                                     random=bool(f.get("sim")), tlc_s=st.get("tlc_s"), graph_from_cache=st.get("cached"), failures_of_other_properties=r.get("ignored_failures", 0))
        if len(cov["samples"]) < 4 and r.get("sample"): cov["samples"].append(dict(family=name, start_of_one_behaviour=r["sample"]))
        if rc == 1:
            for x in r["failed"][:2]:
                nviol += 1
                violation(prop, dict(x, property=prop, family=name), nviol)
                rep = x.get("report", {})
                print("  %s: %s" % (name, json.dumps(rep)[:600]))
                if x.get("behaviour"): print("  after " + " ".join(json.dumps(s[0][:5]) for s in x["behaviour"][-6:]))
            if nviol >= 3: break
    known(prop)
    ev = dict(property=prop, tier="thorough" if TIER == "thorough" else "quick", seed=SEED, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=["node identities are interchangeable; data items are small integers", "bounds of each family: vt/families.py"])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d states, %d transitions, %d behaviours executed, %d steps, %.1f s: %s" % (prop, TIER, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
          cov["steps_executed"], ev["wall_s"], "VIOLATED" if nviol else "held"))
    return 1 if nviol else 0

def known(prop):
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) id=(\S+)\s+(.*)", l)
        if m and m.group(1) == prop:
            p = subprocess.run([harness("std"), "finding", m.group(2)], capture_output=True, text=True)
            if p.returncode: raise ToolError("finding %s: %s" % (m.group(2), p.stderr))
            if "present" in p.stdout: print("KNOWN-FINDING: property=%s %s: %s" % (prop, m.group(2), m.group(3).strip()))

def setup():
    t0 = time.time()
    for k in ("std", "tup", "nostd", "nostdtup", "pad", "pod"):
        harness(k); print("built %s, %.0f s" % (k, time.time() - t0), flush=True)
    try: build_miri(); print("built miri, %.0f s" % (time.time() - t0), flush=True)
    except (ToolError, OSError) as e: print(e)
    seen = []
    for items in checks(TIER == "thorough").values():
        for i in items:
            if i.get("fam") and i["fam"] not in seen: seen.append(i["fam"])
    for n in seen:
        g, st = tlc.graph(n, FAM[n], harness("std"), seed=SEED)
        print("%-8s %s, %.0f s" % (n, {k: st.get(k) for k in ("states", "edges", "tlc_s", "cached")}, time.time() - t0), flush=True)
    for n in sorted({i["prog"] for items in checks(TIER == "thorough").values() for i in items if i.get("prog") and not i.get("miri")}):
        try: print("%-8s %d programs of %d steps in all, %.0f s" % ((n,) + programs.run([harness("std")], n, SEED, TIER == "thorough")[1:] + (time.time() - t0,)), flush=True)
        except ToolError as e: print(e)
    return 0

if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try: sys.exit(setup() if sys.argv[1] == "--setup" else run(sys.argv[1]))
        except ToolError as e:
            print("TOOL ERROR: %s" % e, file=sys.stderr); sys.exit(2)
