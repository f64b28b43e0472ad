//! Runs a long random program on the real code and writes down every operation with its outcome and what can be seen
//! afterwards, for TLC to say whether the specification allows that (spec/Trace.tla).
//! The choice of operations is this file's own: it knows only what it has seen.
use crate::exec::{rnd, Exec, Op, Out, Recipe, Slot};
use crate::obs::{self, SlotObs};
use crate::{mem, payload, reread};
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

const RESULT: [&str; 22] = ["popf", "popb", "det", "aband", "inext", "clone", "copyb", "clonef", "copybf", "mdet", "mpop", "hclone", "down", "up", "hfront", "hback", "hparent", "iterrc", "rnext", "rclone", "ref", "mut"];
const GROW: [&str; 10] = ["new", "pushb", "pushf", "insn", "insp", "app", "prep", "clone", "clonef", "drop"];
const LESS: [&str; 6] = ["intobfs", "into", "aband", "rc", "walk", "mend"]; // these take something away from what can be done
const EVERY: usize = 12; // how often everything is written down

/// (path, index of its row); a forest's own row has the empty path
fn paths(s: &SlotObs) -> Vec<(Vec<usize>, usize)> {
    let mut r: Vec<(Vec<usize>, usize)> = vec![];
    let mut cur: Vec<usize> = vec![];
    for (i, row) in s.rows.iter().enumerate() {
        let d = row[0] as usize;
        if i == 0 { r.push((vec![], 0)); continue }
        if cur.len() >= d { cur.truncate(d); cur[d - 1] += 1 } else { cur.push(1) }
        r.push((cur.clone(), i))
    }
    r
}
struct D<'a> { e: &'a mut Exec, rng: u64, seen: Vec<SlotObs>, limit: usize }
impl<'a> D<'a> {
    fn n(&mut self, n: usize) -> usize { (rnd(&mut self.rng) >> 17) as usize % n.max(1) }
    fn busy(&self, s: usize) -> bool { self.e.mit.as_ref().map(|m| m.s) == Some(s) }
    fn kind(&self, s: usize) -> &'static str { if self.busy(s) { "busy" } else { obs::KINDS[self.seen[s - 1].kind as usize] } }
    fn pick(&mut self, kinds: &[&str], not: usize) -> Option<usize> {
        let c: Vec<usize> = (1..self.e.slots.len()).filter(|s| *s != not && kinds.contains(&self.kind(*s))).collect();
        if c.is_empty() { None } else { Some(c[self.n(c.len())]) }
    }
    fn free(&self) -> Option<usize> { (1..self.e.slots.len()).find(|s| self.kind(*s) == "none") }
    fn any(&self, kinds: &[&str], not: usize) -> bool { (1..self.e.slots.len()).any(|s| s != not && kinds.contains(&self.kind(s))) }
    /// a node (or, if list, the forest itself) of slot s: its path and row
    fn place(&mut self, s: usize, list: bool) -> Option<(Vec<usize>, Vec<i32>)> {
        let o = self.seen[s - 1].clone();
        if o.kind == 4 { return Some((vec![], o.rows.get(0)?.clone())) }
        let from = if o.kind == 2 && !list { 1 } else { 0 };
        let ps = paths(&o);
        if ps.len() <= from { return None }
        let k = if list && self.n(4) == 0 { 0 } else if self.n(5) == 0 { ps.len() - 1 } else { from + self.n(ps.len() - from) };
        Some((ps[k].0.clone(), o.rows[ps[k].1].clone()))
    }
    fn choose(&mut self, o: &str) -> Option<Op> {
        let op = |s: usize, p: Vec<usize>, x: usize, v: usize| Some(Op { o: o.to_string(), s, p, x, v: v as i64 });
        let own = ["tree", "forest"];
        let all = ["tree", "forest", "rc"];
        let alive = payload::alive();
        let limit = self.limit;
        let room = move |n: usize| alive + n <= limit;
        if payload::alive() > self.limit / 2 && ["new", "clone", "clonef", "copyb", "copybf", "sub", "div", "opself", "neg", "divu"].contains(&o) && self.n(3) > 0 { return None }
        let x = if RESULT.contains(&o) { self.free()? } else { 0 };
        let muts = self.any(&["mut"], 0);
        match o {
            "new" => { if !room(1) { return None } let v = 1 + self.n(900); op(0, vec![], self.free()?, v) }
            "newf" => op(0, vec![], self.free()?, 0),
            "drop" => { // rather what nothing can be put into
                let s = 1 + self.n(self.e.slots.len() - 1);
                let k = self.kind(s);
                if k == "none" || k == "busy" || all.contains(&k) && self.seen[s - 1].rows.len() > 2 && self.n(12) > 0 { None } else { op(s, vec![], 0, 0) }
            }
            "pushf" | "pushb" => { let x = self.pick(&["tree"], 0)?; let s = self.pick(&all, x)?; let t = self.place(s, true)?; op(s, t.0, x, 0) }
            "popf" | "popb" => { let s = self.pick(&all, 0)?; let t = self.place(s, true)?; op(s, t.0, x, 0) }
            "prep" | "app" => { let x = self.pick(&["forest"], 0)?; let s = self.pick(&all, x)?; let t = self.place(s, true)?; op(s, t.0, x, 0) }
            "ext" => { let x = self.pick(&["forest"], 0)?; let s = self.pick(&["rc"], x)?; if self.any(&["mut", "ref"], 0) && self.seen[x - 1].rows.len() < 2 { return None } op(s, vec![], x, 0) }
            "insp" | "insn" => { let x = self.pick(&["tree"], 0)?; let s = self.pick(&all, x)?; let t = self.place(s, false)?; op(s, t.0, x, 0) }
            "det" => { let s = self.pick(&all, 0)?; let t = self.place(s, false)?; op(s, t.0, x, 0) }
            "aband" => { let s = self.pick(&["tree"], 0)?; op(s, vec![], x, 0) }
            "into" | "rebuild" => { let s = self.pick(&own, 0)?; op(s, vec![], 0, 0) }
            "inext" => { let s = self.pick(&["into"], 0)?; op(s, vec![], x, 0) }
            "intobfs" => { let s = self.pick(&own, 0)?; let n = self.seen[s - 1].rows.len() - (self.kind(s) == "forest") as usize; let v = self.n(n + 2); op(s, vec![], 0, v) }
            "clone" | "copyb" => { let s = self.pick(&all, 0)?; if o == "copyb" && muts && self.kind(s) == "rc" { return None } let t = self.place(s, false)?; if !room(if t.1.len() > 3 { t.1[3] as usize } else { alive }) { return None } op(s, t.0, x, 0) }
            "clonef" | "copybf" => { let s = self.pick(&own, 0)?; let t = self.place(s, true)?; if !room(t.1[3] as usize) { return None } op(s, t.0, x, 0) }
            "w" => { let s = self.pick(&all, 0)?; let t = self.place(s, false)?; op(s, t.0, 0, 0) }
            "bfs" => { let s = self.pick(&all, 0)?; if muts && self.kind(s) == "rc" { return None } let t = self.place(s, true)?; op(s, t.0, 0, 0) }
            "bfsc" => { let s = self.pick(&all, 0)?; if muts && self.kind(s) == "rc" { return None } let t = self.place(s, false)?; op(s, t.0, 0, 0) }
            "wb" => { let s = self.pick(&own, 0)?; let t = self.place(s, true)?; let v = self.n(t.1[3] as usize + 1); op(s, t.0, 0, v) }
            "wbc" => { let s = self.pick(&own, 0)?; let t = self.place(s, false)?; let v = self.n(t.1[3] as usize); op(s, t.0, 0, v) }
            "wi" => { let s = self.pick(&own, 0)?; let t = self.place(s, true)?; let v = self.n(t.1[2] as usize + 1); op(s, t.0, 0, v) }
            "cmp" => {
                if muts { return None }
                let s = self.pick(&all, 0)?;
                let x = if self.n(3) == 0 { s } else { self.pick(&all, 0)? };
                if (self.kind(s) == "rc") != (self.kind(x) == "rc") { return None }
                let whole = self.kind(s) == "forest" && self.kind(x) == "forest" && self.n(2) == 0;
                let (t, u) = if whole { (vec![], vec![]) } else { (self.place(s, false)?.0, self.place(x, false)?.0) };
                let mut p = t; p.push(0); p.extend(u);
                op(s, p, x, 0)
            }
            "sub" | "div" => {
                let s = self.pick(&own, 0)?; let x = self.pick(&own, s)?;
                match (o, self.kind(s), self.kind(x)) { ("div", "forest", _) | ("sub", "tree", "forest") => return None, _ => () }
                let v = self.n(4);
                let need = (v / 2) * self.seen[s - 1].rows.len() + (v % 2) * self.seen[x - 1].rows.len();
                if !room(need) { return None }
                let y = (1..self.e.slots.len()).find(|q| self.kind(*q) == "none" || *q == s && v / 2 == 0 || *q == x && v % 2 == 0)?;
                op(s, vec![y], x, v)
            }
            "opself" => {
                let s = self.pick(&own, 0)?;
                let o = if self.kind(s) == "tree" && self.n(2) == 0 { "div" } else { "sub" };
                if !room(2 * self.seen[s - 1].rows.len()) { return None }
                Some(Op { o: o.to_string(), s, p: vec![self.free()?], x: s, v: 3 })
            }
            "neg" | "divu" => {
                let s = self.pick(&["tree"], 0)?;
                let v = self.n(2);
                if v == 1 && !room(self.seen[s - 1].rows.len()) { return None }
                op(s, vec![if v == 0 { s } else { self.free()? }], 0, v)
            }
            "mbeg" => { if self.e.mit.is_some() { return None } let s = self.pick(&own, 0)?; let t = self.place(s, true)?; op(s, t.0, 0, 0) }
            "mnext" | "mend" => { let s = self.e.mit.as_ref()?.s; op(s, vec![], 0, 0) }
            "minsp" | "minsn" | "mdet" | "mpush" | "mpop" | "mw" => {
                let (s, n) = { let m = self.e.mit.as_ref()?; (m.s, m.got.len()) };
                if n == 0 { return None }
                let v = 1 + self.n(n);
                let x = if x > 0 { x } else if o == "mw" { 0 } else { self.pick(&["tree"], s)? };
                op(s, vec![], x, v)
            }
            "rc" => { let s = self.pick(&["tree"], 0)?; op(s, vec![], 0, 0) }
            "intotree" => { let s = self.pick(&["rc"], 0)?; if self.seen[s - 1].n != 0 && self.any(&["rc", "weak", "iterrc", "ref", "mut"], s) { return None } op(s, vec![], 0, 0) }
            "hclone" | "hfront" | "hback" | "hparent" | "down" | "iterrc" | "ref" | "mut" => { let s = self.pick(&["rc"], 0)?; op(s, vec![], x, 0) }
            "up" => { let s = self.pick(&["weak"], 0)?; op(s, vec![], x, 0) }
            "rnext" | "rclone" => { let s = self.pick(&["iterrc"], 0)?; op(s, vec![], x, 0) }
            "gw" => { let s = self.pick(&["mut"], 0)?; op(s, vec![], 0, 0) }
            "walk" => { let s = self.pick(&own, 0)?; op(s, vec![], 0, 0) }
            "unwalk" | "wfwd" | "wnext" | "wpar" | "wrev" => { let s = self.pick(&["walkt", "walkf"], 0)?; op(s, vec![], 0, 0) }
            "wsib" | "wch" => { let s = self.pick(&["walkt", "walkf"], 0)?; let v = if self.n(3) == 0 { self.n(30) } else { self.n(3) }; op(s, vec![], 0, v) }
            _ => { eprintln!("HARNESS: no way to choose {}", o); std::process::exit(3) }
        }
    }
}
fn list<T: std::fmt::Display>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn slot_json(s: &SlotObs) -> String { format!("[\"{}\",{},[{}]]", obs::KINDS[s.kind as usize], s.n, s.rows.iter().map(|r| list(r)).collect::<Vec<_>>().join(",")) }

pub struct Plan { pub ns: usize, pub nodes: usize, pub steps: usize, pub recipe: Recipe, pub seed: u64, pub ops: Vec<String> }
/// Ok: the whole program ran; Err: something went wrong that needs no specification to see.
pub fn run(pl: &Plan, out: &mut dyn Write) -> Result<(), (&'static str, String)> {
    payload::reset();
    let (live0, err0) = (mem::LIVE.load(Relaxed), mem::ERRORS.load(Relaxed));
    let mut e = std::mem::ManuallyDrop::new(Exec::new(pl.ns, pl.recipe, pl.seed));
    let mut rng = pl.seed.wrapping_mul(0xD1342543DE82EF95) | 1;
    for _ in 0..9 { rnd(&mut rng); }
    let mut seen = obs::decode(&obs::observe(&e).unwrap());
    let memory = |err0| if !payload::ledger().errors.is_empty() || mem::ERRORS.load(Relaxed) != err0 { Err(("mem", format!("{:?}", payload::ledger().errors))) } else { Ok(()) };
    let mut done = 0;
    while done < pl.steps {
        let mut d = D { e: &mut e, rng, seen, limit: pl.nodes };
        // growing is as likely as shrinking; a list of operations tried with the rarer ones repeated
        let op = loop { let k = d.n(pl.ops.len()); let o = if d.n(3) == 0 { GROW[d.n(GROW.len())].to_string() } else { pl.ops[k].clone() }; if !pl.ops.contains(&o) { continue } if LESS.contains(&&o[..]) && d.n(4) > 0 { continue } if let Some(op) = d.choose(&o) { break op } };
        rng = d.rng;
        write!(out, "{{\"o\":\"{}\",\"s\":{},\"p\":{},\"x\":{},\"v\":{}", op.o, op.s, list(&op.p), op.x, op.v).unwrap();
        out.flush().unwrap();
        e.shuffle_storage();
        let Out { r, e: panicked, d: dropped } = e.step(&op);
        done += 1;
        let o = match obs::observe(&e) { Ok(o) => o, Err(m) => return Err(("obs", format!("reading panicked: {}", m))) };
        seen = obs::decode(&o);
        let full = done % EVERY == 0;
        let show: Vec<usize> = (1..pl.ns + 1).filter(|s| full || *s == op.s || *s == op.x || op.v > 0 && op.p.contains(s) || seen[*s - 1].rows.len() < 3).collect();
        let texts: Vec<String> = show.iter().filter(|_| full).map(|s| { let t = e.text(*s); format!("[{},\"{}\"]", s, if e.guards > 0 { "".into() } else { t }) }).collect();
        writeln!(out, ",\"r\":{},\"e\":{},\"d\":{},\"b\":[{}],\"t\":[{}]}}", list(&r), panicked, list(&dropped),
            show.iter().map(|s| format!("[{},{}]", s, slot_json(&seen[*s - 1]))).collect::<Vec<_>>().join(","), texts.join(",")).unwrap();
        memory(err0)?;
        if let Some((c, m)) = reread::reread(&mut e, &seen, full) { return Err((c, m)) }
        memory(err0)?;
    }
    if let Err(m) = e.finish() { return Err(("panic", m)) }
    std::mem::ManuallyDrop::into_inner(e);
    memory(err0)?;
    let live = mem::LIVE.load(Relaxed);
    if payload::alive() != 0 || live != live0 { return Err(("leak", format!("{} items, {} allocations never released", payload::alive(), live as i64 - live0 as i64))) }
    if mem::flush() > 0 { return Err(("mem", "released blocks were written to".into())) }
    Ok(())
}
