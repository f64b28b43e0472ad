//! Checks the real code against cases computed by TLC: comparison and text of pairs of structures (Compare.tla).
use crate::json::{parse, J};
use crate::sys;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use trees::*;

/// 9 is comparable to nothing
#[derive(Clone, Debug)]
pub struct Q(i32);
const NAN: i32 = 9;
impl PartialEq for Q { fn eq(&self, o: &Q) -> bool { self.0 != NAN && self.0 == o.0 } }
impl Eq for Q {}
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<Ordering> { if self.0 == NAN || o.0 == NAN { None } else { Some(self.0.cmp(&o.0)) } } }
impl Ord for Q { fn cmp(&self, o: &Q) -> Ordering { if self.0 == NAN || o.0 == NAN { panic!("HARNESS: cmp of NaN") } self.0.cmp(&o.0) } }
impl Hash for Q { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl std::fmt::Display for Q { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }

fn tree(j: &J) -> Tree<Q> { let a = j.arr(); let mut t = Tree::new(Q(a[0].num() as i32)); for c in a[1].arr() { t.push_back(tree(c)) } t }
fn forest(j: &J) -> Forest<Q> { let mut f = Forest::new(); for c in j.arr() { f.push_back(tree(c)) } f }
fn store_t(t: Tree<Q>, how: usize) -> Tree<Q> { match how { 0 => t, 1 => Tree::from(t.into_bfs()), _ => t.clone() } }
fn store_f(f: Forest<Q>, how: usize) -> Forest<Q> { match how { 0 => f, 1 => Forest::from(f.into_bfs()), _ => f.clone() } }
fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }

struct Exp { eq: bool, c: i64, total: bool }
/// the first comparison that is wrong
fn check<T: Ord + Hash>(a: &T, b: &T, e: &Exp) -> Option<String> {
    let ord = match e.c { -1 => Some(Ordering::Less), 0 => Some(Ordering::Equal), 1 => Some(Ordering::Greater), _ => None };
    if (a == b) != e.eq { return Some(format!("== is {}", a == b)) }
    if (a != b) == e.eq { return Some(format!("!= is {}", a != b)) }
    if a.partial_cmp(b) != ord { return Some(format!("partial_cmp is {:?}", a.partial_cmp(b))) }
    if (a < b) != (e.c == -1) { return Some(format!("< is {}", a < b)) }
    if (a > b) != (e.c == 1) { return Some(format!("> is {}", a > b)) }
    if (a <= b) != (e.c == -1 || e.c == 0) { return Some(format!("<= is {}", a <= b)) }
    if (a >= b) != (e.c == 1 || e.c == 0) { return Some(format!(">= is {}", a >= b)) }
    if e.total {
        if Some(a.cmp(b)) != ord { return Some(format!("cmp is {:?}", a.cmp(b))) }
        if e.eq && hash(a) != hash(b) { return Some("equal, but hashes differ".into()) }
    }
    None
}
fn wrap(t: Tree<Q>) -> Tree<Q> { let mut w = Tree::new(Q(5)); w.push_back(Tree::new(Q(1))); w.push_back(t); w.push_back(Tree::new(Q(2))); w }

/// one case; every difference as (class, what)
fn run(a: &[J]) -> Vec<(&'static str, String)> {
    if let Some(v) = crate::tuples::run(a) { return v }
    if a[1].str().starts_with("visits") { return crate::visits::run(a) }
    let e = Exp { eq: a[4].num() == 1, c: a[5].num(), total: a[6].num() == 1 };
    let text = a[7].str();
    let mut bad = vec![];
    for (k, l) in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (1, 2)] {
        macro_rules! t { ($what:expr, $x:expr, $y:expr) => { if let Some(m) = check($x, $y, &e) { bad.push(("cmp", format!("{} (storage {}/{}): {}", $what, k, l, m))) } } }
        macro_rules! p { ($what:expr, $x:expr) => {{ let s = $x.to_string(); if s != text { bad.push(("text", format!("{} (storage {}): printed {:?}", $what, k, s))) } }} }
        if a[1].str() == "t" {
            let x = store_t(tree(&a[2].arr()[0]), k);
            let y = store_t(tree(&a[3].arr()[0]), l);
            t!("tree", &x, &y);
            t!("root node", x.root(), y.root());
            p!("tree", x); p!("root node", x.root());
            let (u, v) = (store_t(wrap(tree(&a[2].arr()[0])), k), store_t(wrap(tree(&a[3].arr()[0])), l));
            { let (m, n) = (u.iter().nth(1).unwrap(), v.iter().nth(1).unwrap()); t!("inner node", m, n); t!("inner and root node", m, y.root()); p!("inner node", m); }
            let (h, i) = (RcNode::from(x), RcNode::from(y));
            t!("shared root", &h, &i);
            p!("shared root", h);
            let (r, s) = (RcNode::from(u), RcNode::from(v));
            let inner = |r: &RcNode<Q>| { let mut it = r.iter_rc(); it.next(); it.next().unwrap() };
            t!("shared inner node", &inner(&r), &inner(&s)); t!("shared inner node and root", &inner(&r), &i); p!("shared inner node", inner(&r));
        } else {
            let (x, y) = (store_f(forest(&a[2]), k), store_f(forest(&a[3]), l));
            t!("forest", &x, &y);
            p!("forest", x);
        }
    }
    bad
}

pub fn main(file: &str, out: &str, own: &[String], limit: usize, procs: usize) -> i32 {
    let t0 = std::time::Instant::now();
    let lines: Vec<String> = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("HARNESS: {}: {}", file, e); std::process::exit(3) }).lines().map(|l| l.to_string()).collect();
    let chunk: usize = if lines.len() > 2000 { 100 } else { 4 };
    let jobs: Vec<usize> = (0..(lines.len() + chunk - 1) / chunk).collect();
    let mine = |c: &str| own.iter().any(|o| o == c);
    let (reports, done) = sys::run_jobs(&jobs, procs, 10, &|r| r.len() >= limit.max(1), &|j, progress| {
        for i in j * chunk..lines.len().min((j + 1) * chunk) {
            progress(i as u64);
            let c = parse(&lines[i]).unwrap();
            let bad = match catch_unwind(AssertUnwindSafe(|| run(c.arr()))) { Ok(b) => b, Err(m) => {
                let s = m.downcast_ref::<String>().cloned().or(m.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if s.starts_with("HARNESS") { std::process::exit(3) }
                vec![("panic", s)] } };
            let v: Vec<J> = bad.iter().filter(|b| mine(b.0) || b.0 == "panic").take(3).map(|b| J::Str(format!("{}: {}", b.0, b.1))).collect();
            if !v.is_empty() { return vec![J::Obj(vec![("case".into(), c), ("got".into(), J::Arr(v))]).to_string()] }
        }
        vec![]
    });
    let bad: Vec<J> = reports.iter().take(10).map(|r| {
        let j = parse(&r.text).unwrap_or(J::Null);
        let case = match j.get("case") { Some(c) => J::Str(c.to_string()), None => J::Str(lines.get(r.step as usize).cloned().unwrap_or_default()) };
        J::Obj(vec![("kind".into(), J::Str("case".into())), ("case".into(), case), ("report".into(), j)]) }).collect();
    let n = |x: usize| J::Num(x as i64);
    let res = J::Obj(vec![("cases".into(), n(lines.len())), ("runs".into(), n((done * chunk).min(lines.len()))), ("steps".into(), n(lines.len() * 6)), ("failed".into(), J::Arr(bad.clone())),
        ("run_ms".into(), n(t0.elapsed().as_millis() as usize)), ("sample".into(), J::Str(lines.get(lines.len() / 3).cloned().unwrap_or_default()))]);
    std::fs::write(out, res.to_string()).unwrap();
    if bad.is_empty() { 0 } else { 1 }
}
/// one case again, with everything it shows
pub fn show(line: &str) -> i32 {
    println!("{}", line);
    let c = parse(line).unwrap();
    let bad = run(c.arr());
    for b in &bad { println!("{}: {}", b.0, b.1) }
    if bad.is_empty() { println!("no difference"); 0 } else { 1 }
}
