mod cases; mod drive; mod exec; mod findings; mod graph; mod json; mod mem; mod mt; mod obs; mod payload; mod reread; mod sys; mod visits;
#[cfg(feature = "tuples")] mod tuples;
#[cfg(not(feature = "tuples"))] mod tuples { // this build cannot build tuples
    pub fn build(_: &str, _: &str, _: &[i32], _: usize) -> Option<crate::exec::Slot> { None }
    pub fn run(_: &[crate::json::J]) -> Option<Vec<(&'static str, String)>> { None }
}
use exec::{Exec, Recipe};
use json::J;
use std::sync::atomic::Ordering::Relaxed;

#[cfg(not(miri))]
#[global_allocator]
static A: mem::Alloc = mem::Alloc;

fn arg(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) }

fn report(class: Vec<&str>, step: usize, exp: String, got: String) -> String {
    J::Obj(vec![("class".into(), J::Arr(class.iter().map(|c| J::Str(c.to_string())).collect())), ("at".into(), J::Num(step as i64)),
        ("expected".into(), J::Str(exp)), ("got".into(), J::Str(got))]).to_string()
}

/// Replays one behaviour; returns the difference, if any, as a JSON report.
pub fn run_walk(walk: &graph::Walk, ns: usize, recipe: Recipe, seed: u64, progress: &dyn Fn(u64)) -> Option<String> {
    payload::reset();
    let live0 = mem::LIVE.load(Relaxed);
    let err0 = mem::ERRORS.load(Relaxed);
    let mut e = std::mem::ManuallyDrop::new(Exec::new(ns, recipe, seed)); // not dropped after a failure
    let check = |e: &Exec, exp: &graph::State, i: usize| -> Option<String> {
        match obs::observe(e) {
            Ok(o) => if o != exp.obs {
                let mut c = obs::classify(&exp.obs, &o);
                if !payload::ledger().errors.is_empty() { c.push("mem") }
                return Some(report(c, i, obs::show(&exp.obs), obs::show(&o)))
            },
            Err(m) => return Some(report(vec!["obs"], i, obs::show(&exp.obs), format!("reading panicked: {}", m)))
        }
        for (k, t) in exp.text.iter().enumerate() {
            if t.is_empty() { continue }
            let got = e.text(k + 1);
            if got != *t { return Some(report(vec!["text"], i, t.clone(), got)) }
        }
        if !payload::ledger().errors.is_empty() || mem::ERRORS.load(Relaxed) != err0 {
            return Some(report(vec!["mem"], i, "no access to released memory".into(), format!("{:?} {} allocator errors", payload::ledger().errors, mem::ERRORS.load(Relaxed) - err0)))
        }
        None
    };
    if let Some(st) = walk.start {
        build_start(&mut e, &st.obs);
        if let Some(r) = check(&e, st, 0) { return Some(r) }
    }
    for (i, (op, out, exp)) in walk.steps.iter().enumerate() {
        progress(i as u64 + 1);
        e.shuffle_storage();
        let mut got = e.step(op);
        if payload::POD { got.d = out.d.clone() } // these items have no destructor
        if (op.o.starts_with('x') || op.o == "yclone") && got.e == 1 && out.e == 1 { got.d = out.d.clone() } // not said which of the lost items are dropped
        if got != **out {
            let mut c = vec![];
            if got.e != out.e { c.push("panic") } else { if got.r != out.r { c.push("res") } if got.d != out.d { c.push("drop") } }
            if !payload::ledger().errors.is_empty() { c.push("mem") }
            return Some(report(c, i + 1, format!("r={:?} panic={} dropped={:?}", out.r, out.e, out.d), format!("r={:?} panic={} dropped={:?}", got.r, got.e, got.d)))
        }
        if let Some(r) = check(&e, exp, i + 1) { return Some(r) }
        if let Some((c, m)) = reread::reread(&mut e, &obs::decode(&exp.obs), i + 1 == walk.steps.len()) {
            return Some(report(vec![c], i + 1, "every way of reading shows the same".into(), m))
        }
    }
    progress(walk.len() as u64 + 1);
    let end = walk.len() + 1;
    if let Err(m) = e.finish() { return Some(report(vec!["panic"], end, "everything can be dropped".into(), m)) }
    let lossy = e.lossy;
    std::mem::ManuallyDrop::into_inner(e);
    let mut got = vec![];
    let mut c = vec![];
    if !payload::ledger().errors.is_empty() || mem::ERRORS.load(Relaxed) != err0 { c.push("mem"); got.push(format!("{:?} {} allocator errors", payload::ledger().errors, mem::ERRORS.load(Relaxed) - err0)) }
    if payload::alive() != 0 && !lossy && !payload::POD { c.push("leak"); got.push(format!("{} items never dropped", payload::alive())) }
    let live = mem::LIVE.load(Relaxed);
    if live != live0 && !lossy { c.push("leak"); got.push(format!("{} allocations never released", live as i64 - live0 as i64)) }
    let bad = mem::flush();
    if bad > 0 { c.push("mem"); got.push(format!("{} released blocks were written to", bad)) }
    if !c.is_empty() { return Some(report(c, end, "everything dropped once and all memory released".into(), got.join("; "))) }
    None
}

/// Builds the initial slots (trees and forests) shown by an observation.
fn build_start(e: &mut Exec, o: &[i32]) {
    use payload::P; use trees::{Forest, Tree};
    let _t = mem::track();
    fn tree(rows: &[Vec<i32>], i: &mut usize) -> Tree<P> {
        let d = rows[*i][0];
        let mut t = Tree::new(P::new(rows[*i][1]));
        *i += 1;
        while *i < rows.len() && rows[*i][0] == d + 1 { let c = tree(rows, i); t.push_back(c) }
        t
    }
    for (k, s) in obs::decode(o).iter().enumerate() {
        let mut i = 0;
        let kind = obs::KINDS[s.kind as usize];
        if e.recipe == Recipe::T && (kind == "tree" || kind == "forest") {
            // the tuple of that shape
            let rows: Vec<&Vec<i32>> = s.rows.iter().skip((kind == "forest") as usize).collect();
            let mut shape = String::new();
            let mut depth = 0;
            for (n, r) in rows.iter().enumerate() {
                let d = r[0] + (kind == "tree") as i32;
                while depth >= d { shape.push(']'); depth -= 1 }
                if n > 0 && shape.ends_with(']') { shape.push(',') }
                shape.push('['); depth = d;
            }
            while depth > 0 { shape.push(']'); depth -= 1 }
            if kind == "forest" { shape = format!("[{}]", shape) }
            let vals: Vec<i32> = rows.iter().map(|r| r[1]).collect();
            if let Some(z) = tuples::build(&kind[..1], &shape, &vals, (e.rng >> 20) as usize % 3) { e.slots[k + 1] = z; continue }
            eprintln!("HARNESS: no tuple for {} {}", kind, shape); std::process::exit(3)
        }
        let z = match obs::KINDS[s.kind as usize] {
            "tree" => { let t = tree(&s.rows, &mut i); exec::Slot::Tree(e.store_tree(t)) }
            "forest" => { let mut f = Forest::new(); i = 1; while i < s.rows.len() { f.push_back(tree(&s.rows, &mut i)) } exec::Slot::Forest(e.store_forest(f)) }
            _ => exec::Slot::None,
        };
        e.slots[k + 1] = z;
    }
}

fn recipe(s: &str) -> Recipe { match s { "S" => Recipe::S, "P" => Recipe::P, "T" => Recipe::T, _ => Recipe::M } }

const PHASE: u64 = 1 << 32; // progress of the n-th recipe of a job counts from n * PHASE

fn replay(args: &[String]) -> i32 {
    let file = arg(args, "--graph").expect("--graph");
    let seed: u64 = arg(args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let ns: usize = arg(args, "--ns").expect("--ns").parse().unwrap();
    let recipes: Vec<String> = arg(args, "--recipes").unwrap_or("S,P,M".into()).split(',').map(|s| s.to_string()).collect();
    let num = |k: &str, d: usize| -> usize { arg(args, k).map(|s| s.parse().unwrap()).unwrap_or(d) };
    let list = |k: &str| -> Option<Vec<String>> { arg(args, k).map(|s| s.split(',').map(|x| x.to_string()).collect()) };
    let (procs, limit, maxlen, maxsteps) = (num("--procs", 8), num("--limit", 3), num("--maxlen", 60), num("--maxsteps", 40_000_000));
    let (own, only) = (list("--own"), list("--only"));
    let nt = num("--nt", 0); // number of threads; 0: none
    let run1 = move |w: &graph::Walk, rc: Recipe, sd: u64, progress: &(dyn Fn(u64) + Sync)| if nt == 0 { run_walk(w, ns, rc, sd, progress) } else { mt::run(w, ns, nt, rc, sd, progress) };
    let diff = args.iter().any(|a| a == "--diff"); // only differences that the first recipe does not show
    let out = arg(args, "--out").expect("--out");
    let skip: std::collections::HashSet<usize> = arg(args, "--skip").map(|f| std::fs::read_to_string(f).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let t0 = std::time::Instant::now();
    let (g, sims) = graph::load(&file);
    let (nstates, nedges) = (g.states.len(), g.edges.len());
    let mut covered = 0;
    let walks = if !sims.is_empty() { graph::Walks::Sim(sims) } else {
        let (w, c) = graph::cover(&g, maxlen, maxsteps, seed, &|o| only.as_ref().map(|v| v.iter().any(|x| x == o)).unwrap_or(true));
        covered = c;
        graph::Walks::Graph(g, w)
    };
    let nw = walks.len();
    let steps: usize = (0..nw).map(|i| walks.get(i).len()).sum();
    let t1 = std::time::Instant::now();
    // a job runs one behaviour: with one recipe, or (diff) with every recipe in turn
    let nr = if diff { 1 } else { recipes.len() };
    let jobs: Vec<usize> = (0..nw * nr).filter(|j| !skip.contains(&(j / nr))).collect();
    let parse = |r: &sys::Report| -> (Vec<String>, usize, usize, J) { // classes, step, recipe, report
        let j = json::parse(&r.text).unwrap_or(J::Str(r.text.clone()));
        let classes = j.get("class").map(|c| c.arr().iter().map(|x| x.str().to_string()).collect()).unwrap_or_default();
        let at = j.get("at").map(|x| x.num() as usize).unwrap_or((r.step % PHASE) as usize);
        let rc = if diff { (r.step / PHASE) as usize } else { r.job % nr };
        (classes, at, rc, j)
    };
    let counts = |r: &sys::Report| -> bool { let (c, _, rc, _) = parse(r); !(diff && rc == 0) && own.as_ref().map(|o| c.iter().any(|x| o.contains(x))).unwrap_or(true) };
    let is_hang = |r: &sys::Report| r.text.contains("\"hang\"");
    let (reports, done) = sys::run_jobs(&jobs, procs, 10, &|rs| rs.len() >= 3000 || rs.iter().filter(|r| is_hang(r)).count() >= 8 || rs.iter().filter(|r| counts(r)).count() >= limit,
        &|j, progress| {
            let w = walks.get(j / nr);
            let sd = seed.wrapping_add(j as u64 * 7919);
            if !diff { return run1(&w, recipe(&recipes[j % nr]), sd, progress).into_iter().collect() }
            for (k, rc) in recipes.iter().enumerate() {
                progress(k as u64 * PHASE);
                if let Some(r) = run1(&w, recipe(rc), sd, &|s| progress(k as u64 * PHASE + s)) { return vec![r] }
            }
            vec![]
        });
    let mut bad: Vec<J> = vec![];
    let mut failed_walks: Vec<usize> = skip.iter().cloned().collect();
    let mut ignored = 0;
    let mut found: Vec<(usize, usize)> = (0..reports.len()).map(|i| (parse(&reports[i]).1, i)).collect();
    found.sort(); // shortest first
    for (_, i) in found {
        let r = &reports[i];
        let (_, at, rc, j) = parse(r);
        let wi = r.job / nr;
        failed_walks.push(wi);
        if !counts(r) { ignored += 1; continue }
        if bad.len() >= 10 { continue }
        let w = walks.get(wi);
        let stj = |o: &graph::State| vec![J::Str(obs::show(&o.obs)), J::Arr(o.obs.iter().map(|x| J::Num(*x as i64)).collect()), J::Arr(o.text.iter().map(|x| J::Str(x.clone())).collect())];
        let ops: Vec<J> = w.steps.iter().take(at).map(|(op, out, o)| { let mut v = vec![graph::op_json(op, out)]; v.extend(stj(o)); J::Arr(v) }).collect();
        bad.push(J::Obj(vec![("kind".into(), J::Str("behaviour".into())), ("recipe".into(), J::Str(recipes[rc].clone())), ("seed".into(), J::Num(seed.wrapping_add(r.job as u64 * 7919) as i64)), ("ns".into(), J::Num(ns as i64)), ("nt".into(), J::Num(nt as i64)),
            ("failed_at_step".into(), J::Num(at as i64)), ("whole_length".into(), J::Num(w.len() as i64)), ("report".into(), j),
            ("start".into(), w.start.map(|o| J::Arr(stj(o))).unwrap_or(J::Null)),
            ("behaviour".into(), J::Arr(ops))]));
    }
    // a sample for the evidence file
    let sample = if nw > 0 { let w = walks.get((seed as usize * 31) % nw); J::Arr(w.steps.iter().take(8).map(|(op, out, o)| J::Arr(vec![graph::op_json(op, out), J::Str(obs::show(&o.obs))])).collect()) } else { J::Null };
    let n = |x: usize| J::Num(x as i64);
    let res = J::Obj(vec![("states".into(), n(nstates)), ("edges".into(), n(nedges)), ("edges_covered".into(), n(covered)), ("behaviours".into(), n(nw)), ("runs".into(), n(done * if diff { recipes.len() } else { 1 })),
        ("steps".into(), n(steps * recipes.len())), ("ignored_failures".into(), n(ignored)), ("failed".into(), J::Arr(bad.clone())),
        ("failed_walks".into(), J::Arr(failed_walks.iter().map(|x| n(*x)).collect())),
        ("load_ms".into(), n((t1 - t0).as_millis() as usize)), ("run_ms".into(), n(t1.elapsed().as_millis() as usize)), ("sample".into(), sample)]);
    std::fs::write(out, res.to_string()).unwrap();
    if bad.is_empty() { 0 } else { 1 }
}

/// Picks behaviours of a graph, at random but the same ones for the same seed, and writes them down for the executor under
/// Miri.
fn export(args: &[String]) -> i32 {
    let num = |k: &str, d: usize| -> usize { arg(args, k).map(|s| s.parse().unwrap()).unwrap_or(d) };
    let (n, seed, ns, nt, maxlen) = (num("--n", 100), num("--seed", 1) as u64, num("--ns", 3), num("--nt", 0), num("--maxlen", 12));
    let recipes: Vec<String> = arg(args, "--recipes").unwrap_or("P,M,S".into()).split(',').map(|s| s.to_string()).collect();
    let with: Option<Vec<String>> = arg(args, "--with").map(|s| s.split(',').map(|x| x.to_string()).collect());
    let (g, sims) = graph::load(&arg(args, "--graph").expect("--graph"));
    let walks = if !sims.is_empty() { graph::Walks::Sim(sims) } else {
        let (w, _) = graph::cover(&g, maxlen, usize::MAX, seed, &|o| with.as_ref().map(|v| v.iter().any(|x| x == o)).unwrap_or(true));
        graph::Walks::Graph(g, w)
    };
    // files PREFIX.0 .. PREFIX.(m-1), and PREFIX.json with the same behaviours in the order 0.0, 1.0, .. as replay files
    let (prefix, m) = (arg(args, "--out").expect("--out"), num("--m", 1));
    let pick = n.min(walks.len());
    let mut js = String::new();
    for i in 0..m {
        let ls: Vec<_> = (i..pick).step_by(m).map(|k| (recipes[k % recipes.len()].clone(), seed + k as u64, ns, nt, walks.get(k))).collect();
        std::fs::write(format!("{}.{}", prefix, i), graph::write_lines(&ls)).unwrap();
    }
    for k in 0..pick {
        let w = walks.get(k);
        let stj = |o: &graph::State| vec![J::Str(obs::show(&o.obs)), J::Arr(o.obs.iter().map(|x| J::Num(*x as i64)).collect()), J::Arr(vec![])];
        let ops: Vec<J> = w.steps.iter().map(|(op, out, o)| { let mut v = vec![graph::op_json(op, out)]; v.extend(stj(o)); J::Arr(v) }).collect();
        js += &J::Obj(vec![("recipe".into(), J::Str(recipes[k % recipes.len()].clone())), ("seed".into(), J::Num((seed + k as u64) as i64)), ("ns".into(), J::Num(ns as i64)), ("nt".into(), J::Num(nt as i64)),
            ("start".into(), w.start.map(|o| J::Arr(stj(o))).unwrap_or(J::Null)), ("behaviour".into(), J::Arr(ops))]).to_string();
        js.push('\n');
    }
    std::fs::write(format!("{}.json", prefix), js).unwrap();
    println!("{} of {}", pick, walks.len());
    0
}
/// Executes a file of exported behaviours one after the other in this process.
fn lines(args: &[String]) -> i32 {
    let b = std::fs::read(arg(args, "--in").expect("--in")).unwrap();
    let (mut done, mut bad) = (0, 0);
    graph::read_lines(&b, &mut |k, l| {
        eprintln!("WALK {}", k);
        let w = graph::Walk { start: l.start.as_ref(), steps: l.steps.iter().map(|(a, b, c)| (a, b, c)).collect() };
        let rc = recipe(&l.recipe);
        if let Some(r) = if l.nt == 0 { run_walk(&w, l.ns, rc, l.seed, &|_| ()) } else { mt::run(&w, l.ns, l.nt, rc, l.seed, &|_| ()) } {
            eprintln!("DIFFERENCE {}", r);
            bad = 1;
            return false
        }
        done += 1;
        true
    });
    eprintln!("DONE {}", done);
    bad
}

/// Re-executes a replay file step by step, printing what happens.
fn show(args: &[String]) -> i32 {
    let j = json::parse(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    if let Some(c) = j.get("case") { return cases::show(c.str()) }
    let st = |a: &[J]| graph::State { obs: a[1].nums().iter().map(|x| *x as i32).collect(), text: a[2].arr().iter().map(|x| x.str().to_string()).collect() };
    let steps: graph::Sim = j.get("behaviour").unwrap().arr().iter().map(|s| { let (a, b) = graph::label(&s.arr()[0]); (a, b, st(&s.arr()[1..])) }).collect();
    let ns = j.get("ns").unwrap().num() as usize;
    let start = match j.get("start") { Some(J::Arr(v)) => Some(st(v)), _ => None };
    if let Some(s) = &start { println!("start {}", obs::show(&s.obs)) }
    for (i, s) in steps.iter().enumerate() { println!("{:3} {:?} -> {:?}\n      {}", i + 1, s.0, s.1, obs::show(&s.2.obs)) }
    let w = graph::Walk { start: start.as_ref(), steps: steps.iter().map(|(a, b, c)| (a, b, c)).collect() };
    let nt = j.get("nt").map(|x| x.num() as usize).unwrap_or(0);
    let (rc, seed) = (recipe(j.get("recipe").unwrap().str()), j.get("seed").unwrap().num() as u64);
    match if nt == 0 { run_walk(&w, ns, rc, seed, &|s| eprintln!("step {}", s)) } else { (0..200).find_map(|_| mt::run(&w, ns, nt, rc, seed, &|s| eprintln!("step {}", s))) } {
        None => { println!("no difference"); 0 }
        Some(r) => { println!("{}", r); 1 }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| { let s = i.to_string(); if s.contains("HARNESS") || std::env::var("VH_DEBUG").is_ok() { eprintln!("{}", s) } }));
    let _ = std::panic::catch_unwind(|| panic!("warm up"));
    let args: Vec<String> = std::env::args().collect();
    reread::on(&arg(&args, "--reread").unwrap_or_default());
    let code = match args.get(1).map(|s| &s[..]) {
        Some("replay") => replay(&args),
        Some("pack") => { graph::pack(&arg(&args, "--out").expect("--out"), &arg(&args, "--log").expect("--log")); 0 }
        Some("cases") => cases::main(&arg(&args, "--cases").expect("--cases"), &arg(&args, "--out").expect("--out"),
            &arg(&args, "--own").unwrap_or("cmp,text".into()).split(',').map(|s| s.to_string()).collect::<Vec<_>>(), 3, arg(&args, "--procs").map(|s| s.parse().unwrap()).unwrap_or(8)),
        Some("finding") => match findings::present(&args[2]) { Some(true) => { println!("present"); 0 } Some(false) => { println!("gone"); 0 } None => 3 },
        Some("show") => show(&args),
        Some("drive") => {
            let num = |k: &str| arg(&args, k).expect(k).parse::<usize>().unwrap();
            let pl = drive::Plan { ns: num("--ns"), nodes: num("--nodes"), steps: num("--steps"), recipe: recipe(&arg(&args, "--recipe").unwrap()), seed: num("--seed") as u64, ops: arg(&args, "--ops").unwrap().split(',').map(|s| s.to_string()).collect() };
            let mut f = std::io::BufWriter::new(std::fs::File::create(arg(&args, "--out").expect("--out")).unwrap());
            match drive::run(&pl, &mut f) { Ok(()) => 0, Err((c, m)) => { println!("DIFFERENCE {}", report(vec![c], 0, "".into(), m)); 1 } }
        }
        Some("export") => export(&args),
        Some("lines") => lines(&args),
        Some("traits") => { let mut bad = 0; for (w, must, is) in mt::auto_traits() { if must != is { bad = 1; println!("{} is {}, must be {}", w, is, must) } } bad }
        _ => { eprintln!("usage: vharness replay|show ..."); 3 }
    };
    std::process::exit(code)
}
