//! Checks tuple notations against cases computed by TLC (Tuple.tla), and builds start structures from tuples.
use crate::exec::Slot;
use crate::json::J;
use crate::payload::{self, P};
use crate::{mem, obs};
use std::sync::atomic::Ordering::Relaxed;
use trees::{Forest, RcNode, Size, Tree, TupleForest, TupleTree};
#[path = "tuples_gen.rs"]
mod gen;

type Call = (char, i32, usize, usize);
/// What to do with a tuple, and what came of it.
pub struct Job<'a> {
    build: bool,
    vals: &'a [i32],
    pub slot: Slot,
    size: Size, height: usize, levels: Vec<usize>,
    calls: Vec<Vec<Call>>, // preorder, with hints, postorder, with hints
}
impl<'a> Job<'a> { pub fn new(build: bool, vals: &'a [i32]) -> Job<'a> { Job { build, vals, slot: Slot::None, size: Size { degree: 0, descendants: 0 }, height: 0, levels: vec![], calls: vec![] } } }
type Mk<U> = fn(&mut dyn FnMut() -> P) -> U;
macro_rules! make { ($mk:expr, $j:expr) => {{ let mut i = 0; let vals = $j.vals; $mk(&mut || { i += 1; P::new(vals[i - 1]) }) }} }
fn call(c: trees::tuple::Visit<P>, s: Size) -> Call {
    use trees::tuple::Visit::*;
    match c { Branch(p) => ('B', p.get(), s.degree as usize, s.descendants as usize), Leaf(p) => ('L', p.get(), s.degree as usize, s.descendants as usize), Frame => ('F', 0, s.degree as usize, s.descendants as usize) }
}
const NOSIZE: Size = Size { degree: 0, descendants: 0 };
// one callback type for all tuples
type F0<'a> = &'a mut dyn FnMut(trees::tuple::Visit<P>);
type F1<'a> = &'a mut dyn FnMut(trees::tuple::Visit<P>, Size);
fn rec0(j: &mut Vec<Vec<Call>>, f: &mut dyn FnMut(F0)) { let mut v = vec![]; f(&mut |c| v.push(call(c, NOSIZE))); j.push(v) }
fn rec1(j: &mut Vec<Vec<Call>>, f: &mut dyn FnMut(F1)) { let mut v = vec![]; f(&mut |c, s| v.push(call(c, s))); j.push(v) }
macro_rules! calls { ($U:ty, $mk:expr, $j:expr) => {{
    $j.size = <$U>::SIZE; $j.height = <$U>::height(); $j.levels = (0..$j.height + 2).map(|n| <$U>::descendants(n)).collect();
    let mut calls = std::mem::take(&mut $j.calls);
    rec0(&mut calls, &mut |mut f| <$U>::preorder(make!($mk, $j), &mut f));
    rec1(&mut calls, &mut |mut f| <$U>::preorder_with_size_hint(make!($mk, $j), &mut f));
    rec0(&mut calls, &mut |mut f| <$U>::postorder(make!($mk, $j), &mut f));
    rec1(&mut calls, &mut |mut f| <$U>::postorder_with_size_hint(make!($mk, $j), &mut f));
    $j.calls = calls;
}} }
fn tree<U: TupleTree<P, S>, S>(mk: Mk<U>, j: &mut Job) { if j.build { j.slot = Slot::Tree(Tree::from_tuple(make!(mk, j))) } else { calls!(U, mk, j) } }
fn forest<U: TupleForest<P, S>, S>(mk: Mk<U>, j: &mut Job) { if j.build { j.slot = Slot::Forest(Forest::from_tuple(make!(mk, j))) } else { calls!(U, mk, j) } }

/// A tree or forest built from the tuple of that shape, if one was generated.
pub fn build(kind: &str, shape: &str, vals: &[i32], mode: usize) -> Option<Slot> {
    let mut j = Job::new(true, vals);
    if (0..3).any(|k| gen::run(kind, shape, (mode + k) % 3, &mut j)) { Some(j.slot) } else { None }
}

fn is_case(a: &[J]) -> Option<&'static str> { match a[1].str() { "tuple tree" => Some("t"), "tuple forest" => Some("f"), _ => None } }
/// one case; every difference as (class, what); None: not a tuple case
pub fn run(a: &[J]) -> Option<Vec<(&'static str, String)>> {
    let kind = is_case(a)?;
    let shape = a[2].to_string();
    let size: Vec<usize> = a[3].nums().iter().map(|x| *x as usize).collect();
    let levels: Vec<usize> = a[5].nums().iter().map(|x| *x as usize).collect();
    let want = |j: &J, hint: bool| -> Vec<Call> { j.arr().iter().map(|c| { let c = c.arr();
        (c[0].str().chars().next().unwrap(), c[1].num() as i32, if hint { c[2].num() as usize } else { 0 }, if hint { c[3].num() as usize } else { 0 }) }).collect() };
    let exp = [want(&a[6], false), want(&a[6], true), want(&a[7], false), want(&a[7], true)];
    let rows: Vec<Vec<i32>> = a[8].arr().iter().map(|r| r.nums().iter().map(|x| *x as i32).collect()).collect();
    let vals: Vec<i32> = (1..=500).collect();
    let mut bad: Vec<(&'static str, String)> = vec![];
    let mut modes = 0;
    for mode in 0..3 {
        payload::reset();
        let live0 = mem::LIVE.load(Relaxed);
        let err0 = mem::ERRORS.load(Relaxed);
        // the calls
        let mut j = Job::new(false, &vals);
        if !gen::run(kind, &shape, mode, &mut j) { continue }
        modes += 1;
        let how = ["plain items", "one-tuples", "mixed"][mode];
        if (j.size.degree as usize, j.size.descendants as usize) != (size[0], size[1]) { bad.push(("calls", format!("{}: SIZE is {:?}", how, j.size))) }
        if j.height as i64 != a[4].num() { bad.push(("calls", format!("{}: height is {}", how, j.height))) }
        if j.levels != levels { bad.push(("calls", format!("{}: descendants are {:?}", how, j.levels))) }
        for k in 0..4 { if j.calls[k] != exp[k] { bad.push(("calls", format!("{}: {} calls {:?}", how, ["preorder", "preorder_with_size_hint", "postorder", "postorder_with_size_hint"][k], j.calls[k]))) } }
        let own = payload::alive();
        if own != 0 || !payload::ledger().errors.is_empty() { bad.push(("calls", format!("{}: {} items left, {:?}", how, own, payload::ledger().errors))) }
        // the structure; then whole, emptied child by child, shared, copied: always the same items, released once
        for end in 0..5 {
            payload::reset();
            let mut j = Job::new(true, &vals);
            { let _t = mem::track(); gen::run(kind, &shape, mode, &mut j); }
            let mut e = crate::exec::Exec::new(1, crate::exec::Recipe::S, 1);
            e.slots[1] = j.slot;
            let mut exp = vec![if kind == "t" { 1 } else { 2 }, 0, rows.len() as i32];
            for r in &rows { exp.push(r.len() as i32); exp.extend(r) }
            match obs::observe(&e) {
                Ok(o) => if o != exp { bad.push(("build", format!("{}: built {}", how, obs::show(&o)))); std::mem::forget(e); mem::flush(); return Some(bad) },
                Err(m) => { bad.push(("build", format!("{}: reading panicked: {}", how, m))); std::mem::forget(e); mem::flush(); return Some(bad) }
            }
            if !payload::ledger().errors.is_empty() || payload::ledger().clones > 0 { bad.push(("build", format!("{}: {} clones, {:?}", how, payload::ledger().clones, payload::ledger().errors))) }
            let top: Vec<i32> = rows.iter().filter(|r| r[0] == 1).map(|r| r[1]).collect();
            {
                let _t = mem::track();
                let s = std::mem::replace(&mut e.slots[1], Slot::None);
                let mut got = vec![];
                match (s, end) {
                    (Slot::Tree(mut t), 1) => while let Some(c) = t.pop_front() { got.push(c.data().get()) },
                    (Slot::Forest(mut t), 1) => while let Some(c) = t.pop_front() { got.push(c.data().get()) },
                    (Slot::Tree(mut t), 2) => { while let Some(c) = t.pop_back() { got.push(c.data().get()) } got.reverse() }
                    (Slot::Forest(mut t), 2) => { while let Some(c) = t.pop_back() { got.push(c.data().get()) } got.reverse() }
                    (Slot::Tree(t), 3) => { let h = RcNode::from(t); let k = h.clone(); drop(h); got = k.iter_rc().map(|c| c.data().get()).collect(); while let Some(c) = k.pop_front() { let w = c.downgrade(); drop(c); if w.upgrade().is_some() { got.push(-1) } } }
                    (Slot::Tree(t), 4) => got = t.iter().map(|c| c.data().get()).collect(),
                    (Slot::Forest(f), 3) => got = f.into_iter().map(|t| t.data().get()).collect(),
                    (Slot::Forest(f), 4) => { for t in f { got.push(t.data().get()) } }
                    (s, _) => { drop(s); got = top.clone() }
                }
                if got != top { bad.push(("build", format!("{}: taking it apart ({}) gave {:?}, not {:?}", how, end, got, top))) }
            }
            if payload::alive() != 0 || !payload::ledger().errors.is_empty() || mem::ERRORS.load(Relaxed) != err0 { bad.push(("build", format!("{}: {} items never released, {:?}", how, payload::alive(), payload::ledger().errors))) }
            let live = mem::LIVE.load(Relaxed);
            drop(e);
            if live != live0 { bad.push(("build", format!("{}: {} allocations never released", how, live as i64 - live0 as i64))) }
            if mem::flush() > 0 { bad.push(("build", format!("{}: released memory was written to", how))) }
            if !bad.is_empty() { break }
        }
        if !bad.is_empty() { break }
    }
    if modes == 0 { panic!("HARNESS: no tuple was generated for {} {}", kind, shape) }
    Some(bad)
}
