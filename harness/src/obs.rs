//! The projection of the real values, as TreesObs.tla defines it.
//! Flat encoding: per slot: kind, n, number of rows, then per row: length, values.
use crate::exec::{Exec, Slot};
use crate::json::J;
use crate::payload::P;
use std::panic::{catch_unwind, AssertUnwindSafe};
use trees::{Node, RcNode, IterRc};

pub const KINDS: [&str; 12] = ["none", "tree", "forest", "into", "rc", "weak", "iterrc", "ref", "mut", "busy", "walkt", "walkf"];
pub fn kind(s: &str) -> i32 { KINDS.iter().position(|k| *k == s).unwrap_or_else(|| { eprintln!("HARNESS: kind {}", s); std::process::exit(3) }) as i32 }
const MAXROWS: usize = 4000;

pub fn encode(j: &J) -> Vec<i32> {
    let mut o = vec![];
    for s in j.arr() {
        let a = s.arr();
        o.push(kind(a[0].str()));
        o.push(a[1].num() as i32);
        o.push(a[2].arr().len() as i32);
        for row in a[2].arr() { let r = row.arr(); o.push(r.len() as i32); for x in r { o.push(x.num() as i32) } }
    }
    o
}

struct W { o: Vec<i32>, rows: usize }
impl W {
    fn row(&mut self, r: &[i32]) {
        self.rows += 1;
        if self.rows > MAXROWS { panic!("structure does not end") }
        self.o.push(r.len() as i32);
        self.o.extend_from_slice(r)
    }
}
fn node_rows(n: &Node<P>, depth: i32, w: &mut W) {
    let par = n.parent().map(|p| p.data().get()).unwrap_or(0);
    let it = n.iter();
    let (lo, hi) = it.size_hint();
    let len = if Some(lo) == hi && lo == it.len() { lo as i32 } else { -7 };
    w.row(&[depth, n.data().get(), n.degree() as i32, n.node_count() as i32, n.has_no_child() as i32, len, par,
            n.front().map(|c| c.data().get()).unwrap_or(0), n.back().map(|c| c.data().get()).unwrap_or(0)]);
    children(it, depth + 1, w)
}
/// The rows of the nodes an iterator yields; it has to know how many it has left, and to stay at its end.
fn children(mut it: trees::Iter<P>, depth: i32, w: &mut W) {
    let mut left = it.len();
    while let Some(c) = it.next() {
        left = left.wrapping_sub(1);
        if it.len() != left { w.row(&[depth, -7]) }
        node_rows(c, depth, w)
    }
    if it.next().is_some() { w.row(&[depth, -8]) }
}
pub fn visit(v: &Option<trees::walk::Visit<P>>) -> (i32, i32) {
    use trees::walk::Visit::*;
    match v { None => (0, 0), Some(v) => (match v { Begin(_) => 1, End(_) => 2, Leaf(_) => 3 }, v.node().data().get()) }
}
fn walk_rows(v: Option<trees::walk::Visit<P>>, parent: Option<&Node<P>>, w: &mut W) -> i32 {
    if let Some(x) = &v { w.row(&[0, parent.map(|p| p.data().get()).unwrap_or(0)]); node_rows(x.node(), 0, w) }
    else if parent.is_some() { w.row(&[0, -9]) }
    visit(&v).0
}
fn try_data(h: &RcNode<P>, g: bool) -> i32 {
    if g { catch_unwind(AssertUnwindSafe(|| h.data().get())).unwrap_or(-1) } else { h.data().get() }
}
/// does every read of a mutably borrowed node panic?
fn all_refuse(h: &RcNode<P>) -> bool {
    fn refuses<R>(f: impl FnOnce() -> R) -> bool { catch_unwind(AssertUnwindSafe(|| { f(); })).is_err() }
    refuses(|| { h.data().get(); }) && refuses(|| h.degree()) && refuses(|| h.node_count()) && refuses(|| h.has_no_child())
        && refuses(|| h.front()) && refuses(|| h.back()) && refuses(|| h.parent()) && refuses(|| h.is_root()) && refuses(|| h.iter_rc())
        && refuses(|| h.data_mut().get())
}
fn rc_rows(h: &RcNode<P>, depth: i32, g: bool, w: &mut W) {
    let v = try_data(h, g);
    if v == -1 { w.row(&[depth, if all_refuse(h) { -1 } else { -2 }]); return }
    let it: IterRc<P> = h.iter_rc();
    let (lo, hi) = it.size_hint();
    let par = h.parent().map(|p| try_data(&p, g)).unwrap_or(0);
    w.row(&[depth, v, h.degree() as i32, h.node_count() as i32, h.has_no_child() as i32, if Some(lo) == hi { lo as i32 } else { -7 }, par,
            h.front().map(|c| try_data(&c, g)).unwrap_or(0), h.back().map(|c| try_data(&c, g)).unwrap_or(0)]);
    for c in it { rc_rows(&c, depth + 1, g, w) }
}
fn forest_rows(f: &trees::Forest<P>, w: &mut W) {
    let it = f.iter();
    let len = if it.size_hint() == (it.len(), Some(it.len())) { it.len() as i32 } else { -7 };
    w.row(&[0, 0, f.degree() as i32, f.node_count() as i32, f.has_no_child() as i32, len, 0,
            f.front().map(|c| c.data().get()).unwrap_or(0), f.back().map(|c| c.data().get()).unwrap_or(0)]);
    children(it, 1, w)
}
fn rows(f: impl FnOnce(&mut W)) -> Vec<Vec<i32>> {
    let mut w = W { o: vec![1, 0, 0], rows: 0 };
    f(&mut w);
    w.o[2] = w.rows as i32;
    decode(&w.o).pop().unwrap().rows
}
pub fn tree_obs(t: &trees::Tree<P>) -> Vec<Vec<i32>> { rows(|w| node_rows(t.root(), 0, w)) }
pub fn forest_obs(f: &trees::Forest<P>) -> Vec<Vec<i32>> { rows(|w| forest_rows(f, w)) }
pub fn observe(e: &Exec) -> Result<Vec<i32>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut w = W { o: Vec::with_capacity(128), rows: 0 };
        let g = e.guards > 0;
        for (i, s) in e.slots.iter().enumerate().skip(1) {
            if let Some(m) = &e.mit { if m.s == i {
                let (lo, hi) = m.it.size_hint();
                w.o.extend([kind("busy"), if Some(lo) == hi { lo as i32 } else { -7 }, 0]); continue } }
            let at = w.o.len();
            w.rows = 0;
            match s {
                Slot::None => w.o.extend([0, 0, 0]),
                Slot::Tree(t) => { w.o.extend([1, 0, 0]); node_rows(t.root(), 0, &mut w) }
                Slot::Forest(f) => { w.o.extend([2, 0, 0]); forest_rows(f, &mut w) }
                Slot::Into(it) => { let n = it.len() as i32; w.o.extend([3, if it.size_hint() == (n as usize, Some(n as usize)) { n } else { -7 }, 0]) }
                Slot::Rc(h) => {
                    let root = if try_data(h, g) == -1 { -1 } else { h.is_root() as i32 };
                    w.o.extend([4, root, 0]);
                    rc_rows(h, 0, g, &mut w)
                }
                Slot::WalkT(k) => { w.o.extend([10, 0, 0]); w.o[at + 1] = walk_rows(k.get(), k.get_parent(), &mut w) }
                Slot::WalkF(k) => { w.o.extend([11, 0, 0]); w.o[at + 1] = walk_rows(k.get(), k.get_parent(), &mut w) }
                Slot::Weak(k) => w.o.extend([5, k.upgrade().is_some() as i32, 0]),
                Slot::IterRc(it) => { let (lo, hi) = it.size_hint(); w.o.extend([6, if Some(lo) == hi { lo as i32 } else { -7 }, 0]) }
                Slot::Ref(q) => w.o.extend([7, q.r.as_ref().unwrap().get(), 0]),
                Slot::Mut(q) => w.o.extend([8, q.m.as_ref().unwrap().get(), 0]),
            }
            w.o[at + 2] = w.rows as i32;
        }
        w.o
    }));
    r.map_err(|m| m.downcast_ref::<String>().cloned().or(m.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

#[derive(Debug, Clone, PartialEq)]
pub struct SlotObs { pub kind: i32, pub n: i32, pub rows: Vec<Vec<i32>> }
pub fn decode(o: &[i32]) -> Vec<SlotObs> {
    let mut v = vec![];
    let mut i = 0;
    while i + 2 < o.len() {
        let (k, n, c) = (o[i], o[i + 1], o[i + 2]);
        i += 3;
        let mut rows = vec![];
        for _ in 0..c { let l = o[i] as usize; rows.push(o[i + 1..i + 1 + l].to_vec()); i += 1 + l }
        v.push(SlotObs { kind: k, n, rows })
    }
    v
}
pub fn show(o: &[i32]) -> String {
    decode(o).iter().map(|s| format!("{}:{}:{}", KINDS[s.kind as usize], s.n,
        s.rows.iter().map(|r| format!("{:?}", r).replace(' ', "")).collect::<Vec<_>>().join(""))).collect::<Vec<_>>().join(" ")
}
/// Which kinds of difference: kind, n, shape, count, nav
pub fn classify(exp: &[i32], got: &[i32]) -> Vec<&'static str> {
    let (a, b) = (decode(exp), decode(got));
    let mut c: Vec<&'static str> = vec![];
    let mut add = |x: &'static str| if !c.contains(&x) { c.push(x) };
    if a.len() != b.len() { add("kind") }
    for (x, y) in a.iter().zip(b.iter()) {
        if x.kind != y.kind { add("kind"); continue }
        if x.n != y.n { add("n") }
        let sh = |s: &SlotObs| s.rows.iter().map(|r| (r[0], r[1])).collect::<Vec<_>>();
        if sh(x) != sh(y) { add("shape"); }
        else {
            for (p, q) in x.rows.iter().zip(y.rows.iter()) {
                if p.len() != q.len() { add("shape"); continue }
                if p.len() > 2 {
                    if p[2..6] != q[2..6] { add("count") }
                    if p[6..] != q[6..] { add("nav") }
                }
            }
        }
    }
    c
}
