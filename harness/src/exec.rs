//! Executes the operations of the specification Trees.tla on the real crate.
use crate::payload::{self, P};
use crate::mem;
use std::cell::{Ref, RefMut};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use trees::*;

pub struct Guard { pub r: Option<Ref<'static, P>>, pub m: Option<RefMut<'static, P>>, pub h: Option<Box<RcNode<P>>> }
impl Drop for Guard { fn drop(&mut self) { self.r = None; self.m = None; self.h = None; } }

pub enum Slot {
    None,
    Tree(Tree<P>),
    Forest(Forest<P>),
    Into(IntoIter<P>),
    Rc(RcNode<P>),
    Weak(WeakNode<P>),
    IterRc(IterRc<P>),
    WalkT(TreeWalk<P>),
    WalkF(ForestWalk<P>),
    Ref(Guard),
    Mut(Guard),
}
impl Slot { pub fn take(&mut self) -> Slot { std::mem::replace(self, Slot::None) } }

pub struct Mit { pub s: usize, pub it: IterMut<'static, P>, pub got: Vec<Pin<&'static mut Node<P>>> }

#[derive(Debug, Clone, PartialEq)]
pub struct Op { pub o: String, pub s: usize, pub p: Vec<usize>, pub x: usize, pub v: i64 }
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Out { pub r: Vec<i64>, pub e: i64, pub d: Vec<i64> }

/// How nodes get stored.  S: one by one.  P: contiguously (every new tree or forest is rebuilt).  M: mixed,
/// with whole trees rebuilt now and then.  T: as S, but what a behaviour starts with is built from tuples.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Recipe { S, P, M, T }

pub struct Exec { pub slots: Vec<Slot>, pub mit: Option<Mit>, pub recipe: Recipe, pub rng: u64, pub guards: usize, /* did user code panic? then what it was making may have leaked */ pub lossy: bool }

pub fn rnd(r: &mut u64) -> u64 { *r ^= *r << 13; *r ^= *r >> 7; *r ^= *r << 17; *r }

/// Navigate to the node at path p (1-based child numbers) below `n`, by varying accessors.
fn below<'a>(mut n: Pin<&'a mut Node<P>>, p: &[usize], rng: &mut u64) -> Pin<&'a mut Node<P>> {
    for &j in p {
        let m: &'a mut Node<P> = unsafe { Pin::get_unchecked_mut(n) };
        let deg = m.degree();
        n = match rnd(rng) % 3 {
            0 if j == 1 => m.front_mut().expect("front_mut"),
            1 if j == deg => m.back_mut().expect("back_mut"),
            _ => m.iter_mut().nth(j - 1).expect("iter_mut.nth"),
        }
    }
    n
}
fn node_at<'a>(slot: &'a mut Slot, p: &[usize], rng: &mut u64) -> Pin<&'a mut Node<P>> {
    match slot {
        Slot::Tree(t) => {
            if !p.is_empty() && rnd(rng) % 2 == 0 {
                let deg = t.degree();
                let n = match rnd(rng) % 3 {
                    0 if p[0] == 1 => t.front_mut().expect("front_mut"),
                    1 if p[0] == deg => t.back_mut().expect("back_mut"),
                    _ => t.iter_mut().nth(p[0] - 1).expect("iter_mut.nth"),
                };
                below(n, &p[1..], rng)
            } else { below(t.root_mut(), p, rng) }
        }
        Slot::Forest(f) => {
            let deg = f.degree();
            let n = match rnd(rng) % 3 {
                0 if p[0] == 1 => f.front_mut().expect("front_mut"),
                1 if p[0] == deg => f.back_mut().expect("back_mut"),
                _ => f.iter_mut().nth(p[0] - 1).expect("iter_mut.nth"),
            };
            below(n, &p[1..], rng)
        }
        _ => panic!("HARNESS: node_at on a slot without nodes"),
    }
}
pub fn node_ref<'a>(slot: &'a Slot, p: &[usize]) -> &'a Node<P> {
    let (mut n, p): (&Node<P>, &[usize]) = match slot {
        Slot::Tree(t) => (t.root(), p),
        Slot::Forest(f) => (f.iter().nth(p[0] - 1).expect("iter.nth"), &p[1..]),
        _ => panic!("HARNESS: node_ref on a slot without nodes"),
    };
    for &j in p { n = n.iter().nth(j - 1).expect("iter.nth") }
    n
}
fn hash_of<T: std::hash::Hash>(t: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
/// -1, 0, 1 if every comparison agrees on it (and equal values hash equally), otherwise 90..
pub fn cmp_all<T: Ord + std::hash::Hash>(a: &T, b: &T) -> i64 {
    use std::cmp::Ordering::*;
    let c = a.cmp(b);
    if a.partial_cmp(b) != Some(c) { return 91 }
    if (a == b) != (c == Equal) || (a != b) == (c == Equal) { return 92 }
    if (a < b) != (c == Less) || (a > b) != (c == Greater) || (a <= b) == (c == Greater) || (a >= b) == (c == Less) { return 93 }
    if b.cmp(a) != c.reverse() { return 94 }
    if c == Equal && hash_of(a) != hash_of(b) { return 95 }
    c as i64
}
macro_rules! hbug { ($($a:tt)*) => { panic!("HARNESS: {}", format!($($a)*)) } }

/// The Debug form has to say the same: the data in the same order and nesting, whatever else it says of the nodes (addresses).
fn debug<D: std::fmt::Debug>(d: &D, text: String) -> String {
    fn tokens(s: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut skip = false; // an address
        let mut num = String::new();
        for c in s.chars().chain(Some(' ')) {
            if skip && c.is_ascii_alphanumeric() { continue }
            skip = c == '@';
            if c.is_ascii_digit() { num.push(c); continue }
            if !num.is_empty() { v.push(std::mem::take(&mut num)) }
            if c == '(' || c == ')' { v.push(c.to_string()) }
        }
        v
    }
    let dbg = format!("{:?}", d);
    if tokens(&dbg) == tokens(&text) { text } else { format!("{} / Debug: {}", text, dbg) }
}

impl Exec {
    pub fn new(ns: usize, recipe: Recipe, seed: u64) -> Exec {
        Exec { slots: (0..ns + 1).map(|_| Slot::None).collect(), mit: None, recipe, rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, guards: 0, lossy: false }
    }
    fn pile(&mut self) -> bool { match self.recipe { Recipe::S | Recipe::T => false, Recipe::P => true, Recipe::M => rnd(&mut self.rng) % 2 == 0 } }
    /// The same tree, its nodes in one piece of memory, by one of the ways to build it from its visits.
    fn pile_tree(&mut self, t: Tree<P>) -> Tree<P> {
        let b = t.into_bfs();
        match rnd(&mut self.rng) % 8 {
            0 => Tree::from(b.map(|d| d)),
            1 => { let size = b.size; let v: Vec<bfs::Visit<P>> = b.iter.collect(); Tree::from(bfs::BfsTree { iter: v.into_iter(), size }) }
            2 => { let (iter, size) = b.wrap().iter_and_size(); Tree::from(bfs::BfsTree { iter, size }) }
            _ => Tree::from(b),
        }
    }
    fn pile_forest(&mut self, f: Forest<P>) -> Forest<P> {
        let b = f.into_bfs();
        match rnd(&mut self.rng) % 8 {
            0 => Forest::from(b.map(|d| d)),
            1 => { let size = b.size; let v: Vec<bfs::Visit<P>> = b.iter.collect(); Forest::from(bfs::BfsForest { iter: v.into_iter(), size }) }
            2 => { let (iter, size) = b.wrap().iter_and_size(); Forest::from(bfs::BfsForest { iter, size }) }
            _ => Forest::from(b),
        }
    }
    pub fn store_tree(&mut self, t: Tree<P>) -> Tree<P> { if self.pile() { self.pile_tree(t) } else { t } }
    pub fn store_forest(&mut self, f: Forest<P>) -> Forest<P> { if self.pile() { self.pile_forest(f) } else { f } }
    fn tree(&mut self, s: usize) -> Tree<P> { match self.slots[s].take() { Slot::Tree(t) => t, _ => hbug!("slot {} is no tree", s) } }
    fn forest(&mut self, s: usize) -> Forest<P> { match self.slots[s].take() { Slot::Forest(f) => f, _ => hbug!("slot {} is no forest", s) } }

    /// In the mixed recipe, rebuild some trees in other storage (not an operation of the specification:
    /// it must not show).
    pub fn shuffle_storage(&mut self) {
        if self.recipe != Recipe::M || rnd(&mut self.rng) % 6 != 0 { return }
        if self.slots.iter().any(|x| matches!(x, Slot::Weak(_))) { return }       // it would be seen by them
        let _t = mem::track();
        let s = (rnd(&mut self.rng) % self.slots.len() as u64) as usize;
        if self.mit.as_ref().map(|m| m.s) == Some(s) { return }
        match self.slots[s].take() {
            Slot::Tree(t) => self.slots[s] = Slot::Tree(self.pile_tree(t)),
            Slot::Forest(f) => self.slots[s] = Slot::Forest(self.pile_forest(f)),
            x => self.slots[s] = x,
        }
    }

    pub fn step(&mut self, op: &Op) -> Out {
        payload::ledger().dropped.clear();
        let mut r: Vec<i64> = Vec::new();
        let res = {
            let _t = mem::track();
            catch_unwind(AssertUnwindSafe(|| self.run(op, &mut r)))
        };
        payload::arm(0);
        payload::arm_drop(0);
        payload::uses(None);
        let e = match res {
            Ok(()) => 0,
            Err(m) => {
                let msg = m.downcast_ref::<String>().cloned().or(m.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                drop(m);
                if msg.starts_with("HARNESS") { eprintln!("{} in {:?}", msg, op); std::process::exit(3) }
                r.clear();
                1
            }
        };
        let mut d: Vec<i64> = payload::ledger().dropped.iter().map(|x| *x as i64).collect();
        d.sort();
        Out { r, e, d }
    }

    fn run(&mut self, op: &Op, r: &mut Vec<i64>) {
        let (s, x, p, v) = (op.s, op.x, &op.p[..], op.v);
        let alt = rnd(&mut self.rng) % 2 == 0;
        macro_rules! opt_tree { ($e:expr) => { match $e { Some(t) => { self.slots[x] = Slot::Tree(t); r.push(1) } None => r.push(0) } } }
        macro_rules! opt_rc { ($e:expr) => { match $e { Some(t) => { self.slots[x] = Slot::Rc(t); r.push(1) } None => r.push(0) } } }
        match &op.o[..] {
            "new" => { let t = Tree::new(P::new(v as i32)); let t = self.store_tree(t); self.slots[x] = Slot::Tree(t) }
            "newf" => { let f = if alt { Forest::new() } else { Forest::default() }; let f = self.store_forest(f); self.slots[x] = Slot::Forest(f) }
            "drop" => { let z = self.slots[s].take(); if let Slot::Ref(_) | Slot::Mut(_) = z { self.guards -= 1 } drop(z) }
            "pushf" | "pushb" => {
                let t = self.tree(x);
                let back = op.o == "pushb";
                match &mut self.slots[s] {
                    Slot::Rc(h) => if back { h.push_back(t) } else { h.push_front(t) },
                    Slot::Forest(f) if p.is_empty() => if back { f.push_back(t) } else { f.push_front(t) },
                    Slot::Tree(w) if p.is_empty() && alt => if back { w.push_back(t) } else { w.push_front(t) },
                    z => { let mut n = node_at(z, p, &mut self.rng); if back { n.push_back(t) } else { n.push_front(t) } }
                }
            }
            "popf" | "popb" => {
                let back = op.o == "popb";
                match &mut self.slots[s] {
                    Slot::Rc(h) => { let z = if back { h.pop_back() } else { h.pop_front() }; opt_rc!(z) }
                    Slot::Forest(f) if p.is_empty() => { let z = if back { f.pop_back() } else { f.pop_front() }; opt_tree!(z) }
                    Slot::Tree(w) if p.is_empty() && alt => { let z = if back { w.pop_back() } else { w.pop_front() }; opt_tree!(z) }
                    z => { let mut n = node_at(z, p, &mut self.rng); let z = if back { n.pop_back() } else { n.pop_front() }; opt_tree!(z) }
                }
            }
            "app" | "prep" => {
                let f = self.forest(x);
                let back = op.o == "app";
                match &mut self.slots[s] {
                    Slot::Rc(h) => if back { h.append(f) } else { h.prepend(f) },
                    Slot::Forest(w) if p.is_empty() => if back { w.append(f) } else { w.prepend(f) },
                    Slot::Tree(w) if p.is_empty() && alt => if back { w.append(f) } else { w.prepend(f) },
                    z => { let mut n = node_at(z, p, &mut self.rng); if back { n.append(f) } else { n.prepend(f) } }
                }
            }
            "ext" => { let f = self.forest(x); let k = rnd(&mut self.rng) % 4; match &mut self.slots[s] {
                Slot::Rc(h) => match k {
                    0 => h.extend(f.into_iter().filter(|_| true)),      // says nothing of its length
                    1 => h.extend(f.into_iter().collect::<Vec<_>>()),
                    2 => { let (mut i, me) = (f.into_iter(), h.clone());                 // looks at the node meanwhile
                           h.extend(std::iter::from_fn(move || { let n = i.next(); if n.is_some() { me.degree(); } n })) }
                    _ => h.extend(f),
                },
                _ => hbug!("ext") } }
            "insp" | "insn" => {
                let t = self.tree(x);
                let next = op.o == "insn";
                match &mut self.slots[s] {
                    Slot::Rc(h) => if next { h.insert_next_sib(t) } else { h.insert_prev_sib(t) },
                    z => { let mut n = node_at(z, p, &mut self.rng); if next { n.insert_next_sib(t) } else { n.insert_prev_sib(t) } }
                }
            }
            "det" => match &mut self.slots[s] {
                Slot::Rc(h) => h.detach(),
                z => { let t = node_at(z, p, &mut self.rng).detach(); self.slots[x] = Slot::Tree(t) }
            },
            "aband" => match &mut self.slots[s] { Slot::Tree(t) => { let f = t.abandon(); self.slots[x] = Slot::Forest(f) } _ => hbug!("aband") },
            "into" => { let z = self.slots[s].take(); self.slots[s] = Slot::Into(match z { Slot::Tree(t) => t.into_iter(), Slot::Forest(f) => f.into_iter(), _ => hbug!("into") }) }
            "inext" => { let z = match &mut self.slots[s] { Slot::Into(i) => i.next(), _ => hbug!("inext") }; opt_tree!(z) }
            "clone" => {
                let t = match &self.slots[s] {
                    Slot::Rc(h) => h.deep_clone(),
                    Slot::Tree(t) if p.is_empty() && alt => t.clone(),
                    z => node_ref(z, p).deep_clone(),
                };
                self.slots[x] = Slot::Tree(t)
            }
            "copyb" => {
                let sh = |q: &P| { let mut c = q.clone(); c.shift(); c };
                let t = match &self.slots[s] {
                    Slot::Rc(h) => { let n = unsafe { h.node() }; Tree::from(n.bfs().map(sh)) }
                    z => Tree::from(node_ref(z, p).bfs().map(sh)),
                };
                self.slots[x] = Slot::Tree(t)
            }
            "clonef" => { let f = match &self.slots[s] { Slot::Forest(f) if p.is_empty() => f.clone(), z => node_ref(z, p).deep_clone_forest() }; self.slots[x] = Slot::Forest(f) }
            "copybf" => {
                let sh = |q: &P| { let mut c = q.clone(); c.shift(); c };
                let f = match &self.slots[s] { Slot::Forest(f) if p.is_empty() => Forest::from(f.bfs().map(sh)), z => Forest::from(node_ref(z, p).bfs_children().map(sh)) };
                self.slots[x] = Slot::Forest(f)
            }
            "rebuild" => { let z = self.slots[s].take(); self.slots[s] = match z {
                Slot::Tree(t) => Slot::Tree(self.pile_tree(t)), Slot::Forest(f) => Slot::Forest(self.pile_forest(f)), _ => hbug!("rebuild") } }
            "intobfs" => {
                let z = self.slots[s].take();
                let mut n = v;
                macro_rules! go { ($it:expr) => {{ let mut it = $it; let mut kept = Vec::new();
                    while n > 0 { n -= 1; match it.next() { Some(w) => { r.extend([w.data.get() as i64, w.size.degree as i64, w.size.descendants as i64]); kept.push(w.data) } None => break } }
                    drop(it); drop(kept) }} }
                match z {
                    Slot::Tree(t) => { let b = t.into_bfs(); match n % 4 { 0 => go!(b.iter), 1 => go!(b.map(|d| d).iter), 2 => go!(b.wrap().iter()), _ => go!(b.wrap().tree_iter().expect("a tree's")) } }
                    Slot::Forest(f) => { let b = f.into_bfs(); match n % 4 { 0 => go!(b.iter), 1 => go!(b.map(|d| d).iter), 2 => go!(b.wrap().iter()), _ => go!(b.wrap().forest_iter().expect("a forest's")) } }
                    _ => hbug!("intobfs"),
                }
            }
            "w" => match &mut self.slots[s] {
                Slot::Rc(h) => if alt { h.data_mut().flip() } else { unsafe { h.node_mut() }.data_mut().flip() },
                z => node_at(z, p, &mut self.rng).data_mut().flip(),
            },
            "bfs" | "bfsc" => {
                let var = rnd(&mut self.rng) % 4;
                // size of the whole, then every visit; the same list whichever way it is read
                macro_rules! fin { ($it:expr, $size:expr, $d:expr) => {{ let z = $size; r.extend([z.degree as i64, z.descendants as i64]);
                    for w in $it { r.extend([$d(&w.data) as i64, w.size.degree as i64, w.size.descendants as i64]) } }} }
                macro_rules! shared { ($b:expr) => {{ let b = $b; match var {
                    0 => { let z = b.size; fin!(b.iter, z, |q: &&P| q.get()) }
                    1 => { let (it, z) = b.wrap().iter_and_size(); fin!(it, z, |q: &&P| q.get()) }
                    2 => { let m = b.map(|q| q.get() as i64 * 2); let z = m.size; fin!(m.iter, z, |q: &i64| *q / 2) }
                    _ => { let z = b.size; fin!(b.wrap().iter(), z, |q: &&P| q.get()) } } }} }
                macro_rules! excl { ($b:expr) => {{ let b = $b; match var {
                    0 => { let z = b.size; fin!(b.iter, z, |q: &&mut P| q.get()) }
                    1 => { let (it, z) = b.wrap().iter_and_size(); fin!(it, z, |q: &&mut P| q.get()) }
                    2 => { let m = b.map(|q| { q.flip(); q.flip(); q.get() as i64 * 2 }); let z = m.size; fin!(m.iter, z, |q: &i64| *q / 2) }
                    _ => { let z = b.size; fin!(b.wrap().iter(), z, |q: &&mut P| q.get()) } } }} }
                let mutable = alt;
                // a traversal of a tree is not one of a forest
                match &self.slots[s] {
                    Slot::Tree(t) if t.bfs().wrap().forest_iter().is_some() || t.bfs().wrap().tree_iter().is_none() || t.bfs_children().wrap().tree_iter().is_some() => r.push(-1),
                    Slot::Forest(f) if f.bfs().wrap().tree_iter().is_some() || f.bfs().wrap().forest_iter().is_none() => r.push(-2),
                    _ => (),
                }
                match (&mut self.slots[s], &op.o[..]) {
                    (Slot::Rc(h), "bfs") => { let n = unsafe { h.node() }; shared!(n.bfs()) }
                    (Slot::Rc(h), _) => { let n = unsafe { h.node() }; shared!(n.bfs_children()) }
                    (Slot::Forest(f), "bfs") if p.is_empty() => if mutable { excl!(f.bfs_mut()) } else { shared!(f.bfs()) },
                    (Slot::Tree(t), "bfs") if p.is_empty() && var == 0 => if mutable { excl!(t.bfs_mut()) } else { shared!(t.bfs()) },
                    (Slot::Tree(t), "bfsc") if p.is_empty() && var == 0 => if mutable { excl!(t.bfs_children_mut()) } else { shared!(t.bfs_children()) },
                    (z, o) => if mutable { let mut n = node_at(z, p, &mut self.rng); if o == "bfs" { excl!(n.bfs_mut()) } else { excl!(n.bfs_children_mut()) } }
                              else { let n = node_ref(z, p); if o == "bfs" { shared!(n.bfs()) } else { shared!(n.bfs_children()) } },
                }
            }
            "cmp" => {
                let k = p.iter().position(|x| *x == 0).unwrap();
                let (pa, pb) = (&p[..k], &p[k + 1..]);
                let (a, b) = (&self.slots[s], &self.slots[x]);
                r.push(match (a, b) {
                    (Slot::Rc(a), Slot::Rc(b)) => cmp_all(a, b),
                    (Slot::Forest(a), Slot::Forest(b)) if pa.is_empty() => cmp_all(a, b),
                    (Slot::Tree(a), Slot::Tree(b)) if pa.is_empty() && pb.is_empty() && alt => cmp_all(a, b),
                    (a, b) => cmp_all(node_ref(a, pa), node_ref(b, pb)),
                })
            }
            "wb" | "wbc" => {
                let mut k = 0;
                macro_rules! go { ($it:expr) => { for w in $it { k += 1; if v == 0 || v == k { w.data.flip() } } } }
                match &mut self.slots[s] {
                    Slot::Forest(f) if p.is_empty() => go!(f.bfs_mut().iter),
                    Slot::Tree(t) if p.is_empty() && alt => if op.o == "wb" { go!(t.bfs_mut().iter) } else { go!(t.bfs_children_mut().iter) },
                    z => { let mut n = node_at(z, p, &mut self.rng);
                           if op.o == "wb" { go!(n.bfs_mut().wrap().iter()) } else { go!(n.bfs_children_mut().wrap().iter_and_size().0) } }
                }
            }
            "wi" => {
                let mut k = 0;
                macro_rules! go { ($it:expr) => { for mut w in $it { k += 1; if v == 0 || v == k { w.data_mut().flip() } } } }
                match &mut self.slots[s] {
                    Slot::Forest(f) if p.is_empty() => go!(f.iter_mut()),
                    Slot::Tree(t) if p.is_empty() && alt => go!(t.iter_mut()),
                    z => { let mut n = node_at(z, p, &mut self.rng);
                           // a pinned node is also an iterator over itself
                           if alt { go!(n.iter_mut()) } else { for w in n.iter_mut() { k += 1; if v == 0 || v == k { for mut u in w { u.data_mut().flip() } } } } }
                }
            }
            // user code panics
            "xclone" | "xcopyb" | "xclonef" | "xcopybf" => {
                self.lossy = true;
                payload::arm(v as u32);
                let inner = Op { o: op.o[1..].to_string(), s, p: p.to_vec(), x: 0, v: 0 };
                self.run(&inner, r)
            }
            "xfmt" | "xhash" => {
                let h = op.o == "xhash";
                payload::arm(v as u32);
                match &self.slots[s] {
                    Slot::Tree(t) => if h { hash_of(t); } else { t.to_string(); },
                    Slot::Forest(t) => if h { hash_of(t); } else { t.to_string(); },
                    Slot::Rc(t) => if h { hash_of(t); } else { t.to_string(); },
                    _ => hbug!("xfmt"),
                }
            }
            "xcmp" => {
                let k = rnd(&mut self.rng) % 6;
                macro_rules! same { ($t:expr) => { match k {
                    0 => { let _ = $t == $t; } 1 => { let _ = $t != $t; } 2 => { let _ = $t.cmp($t); }
                    3 => { let _ = $t.partial_cmp($t); } 4 => { let _ = $t <= $t; } _ => { let _ = $t > $t; } } } }
                payload::arm(v as u32);
                match &self.slots[s] {
                    Slot::Tree(t) => same!(t), Slot::Forest(t) => same!(t), Slot::Rc(t) => same!(t),
                    _ => hbug!("xcmp"),
                }
            }
            "xext" => {
                let mut f = self.forest(x).into_iter();
                match &mut self.slots[s] {
                    Slot::Rc(h) => { payload::arm(1); h.extend(std::iter::from_fn(move || { payload::fuse(); f.next() })) }
                    _ => hbug!("xext"),
                }
            }
            "xdrop" => {
                self.lossy = true;
                let z = self.slots[s].take();
                if let Slot::Ref(_) | Slot::Mut(_) = z { self.guards -= 1 }
                payload::arm_drop(v as u32);
                drop(z)
            }
            // user code makes use of handles
            "yclone" => {
                self.lossy = true;
                let k = 1 + rnd(&mut self.rng) as u32 % 4;
                let other = match &self.slots[x] { Slot::Rc(h) => h as *const RcNode<P>, _ => hbug!("yclone") };
                payload::uses(Some((k, other)));
                payload::arm(v as u32);
                match &self.slots[s] { Slot::Rc(h) => { h.deep_clone(); } _ => hbug!("yclone") }
            }
            "yfmt" | "yhash" | "ycmp" => {
                let other = match &self.slots[x] { Slot::Rc(h) => h as *const RcNode<P>, _ => hbug!("yread") };
                payload::uses(Some((1 + p[0] as u32, other)));
                let inner = Op { o: format!("x{}", &op.o[1..]), s, p: vec![], x: 0, v };
                self.run(&inner, r)
            }
            "ydrop" | "ydropm" => {
                let look = op.o == "ydrop";
                let other = match &self.slots[x] { Slot::Rc(h) => h as *const RcNode<P>, _ => hbug!("ydrop") };
                let z = self.slots[s].take();
                payload::uses(Some((if look { 5 } else { 1 }, other)));
                payload::arm_drop(v as u32);
                drop(z);
                if look { r.push(payload::saw() as i64) }
            }
            "xneg" => { self.lossy = true; payload::arm(v as u32); match &self.slots[s] { Slot::Tree(t) => { let _ = -t; } _ => hbug!("xneg") } }
            "xdivu" => { self.lossy = true; payload::arm(v as u32); match &self.slots[s] { Slot::Tree(t) => { let _ = t / (); } _ => hbug!("xdivu") } }
            "xrebuild" => {
                self.lossy = true;
                payload::arm(v as u32);
                match self.slots[s].take() {
                    Slot::Tree(t) => { Tree::from(t.into_bfs().map(|d| { payload::fuse(); d })); }
                    Slot::Forest(f) => { Forest::from(f.into_bfs().map(|d| { payload::fuse(); d })); }
                    _ => hbug!("xrebuild"),
                }
            }
            "xsub" | "xdiv" => { self.lossy = true; payload::arm(v as u32); self.oper(&op.o == "xdiv", s, x, 0, p[0] as i64) }
            "sub" | "div" => self.oper(&op.o == "div", s, x, p[0], v),
            "neg" => if v == 0 { let t = self.tree(s); self.slots[s] = Slot::Forest(-t) }
                     else { let f = match &self.slots[s] { Slot::Tree(t) => -t, _ => hbug!("neg") }; self.slots[p[0]] = Slot::Forest(f) },
            "divu" => if v == 0 { let t = self.tree(s); self.slots[s] = Slot::Tree(t / ()) }
                      else { let f = match &self.slots[s] { Slot::Tree(t) => t / (), _ => hbug!("divu") }; self.slots[p[0]] = Slot::Tree(f) },
            "mbeg" => {
                let it: IterMut<P> = match &mut self.slots[s] {
                    Slot::Forest(f) if p.is_empty() => f.iter_mut(),
                    Slot::Tree(t) if p.is_empty() && alt => t.iter_mut(),
                    z => unsafe { Pin::get_unchecked_mut(node_at(z, p, &mut self.rng)) }.iter_mut(),
                };
                self.mit = Some(Mit { s, it: unsafe { std::mem::transmute(it) }, got: Vec::new() })
            }
            "mnext" => { let m = self.mit.as_mut().unwrap(); match m.it.next() { Some(n) => { r.extend([1, n.data().get() as i64, m.it.len() as i64]); m.got.push(n) } None => r.push(0) } }
            "mend" => self.mit = None,
            "minsp" | "minsn" => { let t = self.tree(x); let n = &mut self.mit.as_mut().unwrap().got[v as usize - 1]; if op.o == "minsn" { n.insert_next_sib(t) } else { n.insert_prev_sib(t) } }
            "mdet" => { let mut n = self.mit.as_mut().unwrap().got.remove(v as usize - 1); let t = n.detach(); self.slots[x] = Slot::Tree(t) }
            "mpush" => { let t = self.tree(x); self.mit.as_mut().unwrap().got[v as usize - 1].push_back(t) }
            "mpop" => { let z = self.mit.as_mut().unwrap().got[v as usize - 1].pop_front(); opt_tree!(z) }
            "mw" => self.mit.as_mut().unwrap().got[v as usize - 1].data_mut().flip(),
            "rc" => { let t = self.tree(s); self.slots[s] = Slot::Rc(RcNode::from(t)) }
            "intotree" => match self.slots[s].take() { Slot::Rc(h) => { let t = unsafe { h.into_tree() }; self.slots[s] = Slot::Tree(t) } _ => hbug!("intotree") },
            "hclone" => { let h = self.rc(s).clone(); self.slots[x] = Slot::Rc(h) }
            "hfront" => { let z = self.rc(s).front(); opt_rc!(z) }
            "hback" => { let z = self.rc(s).back(); opt_rc!(z) }
            "hparent" => { let z = self.rc(s).parent(); opt_rc!(z) }
            "down" => { let h = self.rc(s).downgrade(); self.slots[x] = Slot::Weak(h) }
            "up" => { let z = match &self.slots[s] { Slot::Weak(w) => w.upgrade(), _ => hbug!("up") }; opt_rc!(z) }
            "iterrc" => { let z = self.rc(s).iter_rc(); self.slots[x] = Slot::IterRc(z) }
            "rnext" => { let z = match &mut self.slots[s] { Slot::IterRc(i) => i.next(), _ => hbug!("rnext") }; opt_rc!(z) }
            "rclone" => { let z = match &self.slots[s] { Slot::IterRc(i) => i.clone(), _ => hbug!("rclone") }; self.slots[x] = Slot::IterRc(z) }
            "ref" => {
                let h = Box::new(self.rc(s).clone());
                let r: Ref<'static, P> = unsafe { std::mem::transmute(if alt { h.data() } else { Ref::map(h.node(), |n| n.data()) }) };
                self.guards += 1;
                self.slots[x] = Slot::Ref(Guard { r: Some(r), m: None, h: Some(h) })
            }
            "mut" => {
                let h = Box::new(self.rc(s).clone());
                let m: RefMut<'static, P> = unsafe { std::mem::transmute(if alt { h.data_mut() } else { RefMut::map(h.node_mut(), |n| n.data_mut()) }) };
                self.guards += 1;
                self.slots[x] = Slot::Mut(Guard { r: None, m: Some(m), h: Some(h) })
            }
            "walk" => { let z = self.slots[s].take(); self.slots[s] = match z { Slot::Tree(t) => Slot::WalkT(TreeWalk::from(t)), Slot::Forest(f) => Slot::WalkF(ForestWalk::from(f)), _ => hbug!("walk") } }
            "unwalk" => { let z = self.slots[s].take(); self.slots[s] = match z { Slot::WalkT(t) => Slot::Tree(Tree::from(t)), Slot::WalkF(f) => Slot::Forest(Forest::from(f)), _ => hbug!("unwalk") } }
            "wfwd" | "wnext" | "wpar" | "wsib" | "wch" | "wrev" => {
                let n = v as usize;
                macro_rules! go { ($k:expr) => {{ let v = match &op.o[..] {
                    "wfwd" => { $k.forward(); return } "wrev" => { $k.revisit(); return }
                    "wnext" => $k.next(), "wpar" => $k.to_parent(), "wsib" => $k.to_sib(n), _ => $k.to_child(n) };
                    let (k, d) = crate::obs::visit(&v); r.push(k as i64); if k != 0 { r.push(d as i64) } }} }
                match &mut self.slots[s] { Slot::WalkT(k) => go!(k), Slot::WalkF(k) => go!(k), _ => hbug!("walk step") }
            }
            "gw" => match &mut self.slots[s] { Slot::Mut(g) => g.m.as_mut().unwrap().flip(), _ => hbug!("gw") },
            o => hbug!("unknown operation {}", o),
        }
    }
    pub fn rc(&self, s: usize) -> &RcNode<P> { match &self.slots[s] { Slot::Rc(h) => h, _ => hbug!("slot {} is no handle", s) } }

    fn oper(&mut self, div: bool, s: usize, x: usize, y: usize, v: i64) {
        use Slot::*;
        let (bl, br) = (v / 2 == 1, v % 2 == 1);
        let a = if bl { None } else { self.slots[s].take() };
        let b = if br { None } else { self.slots[x].take() };
        let ra = &self.slots[s];
        let rb = &self.slots[x];
        let z = match (bl, br) {
            (false, false) => match (a, b) {
                (Tree(a), Tree(b)) => if div { Tree(a / b) } else { Forest(a - b) },
                (Tree(a), Forest(b)) => if div { Tree(a / b) } else { hbug!("t-f") },
                (Forest(a), Tree(b)) => Forest(a - b),
                (Forest(a), Forest(b)) => Forest(a - b),
                _ => hbug!("oper"),
            },
            (false, true) => match (a, rb) {
                (Tree(a), Tree(b)) => if div { Tree(a / b) } else { Forest(a - b) },
                (Tree(a), Forest(b)) => if div { Tree(a / b) } else { hbug!("t-f") },
                (Forest(a), Tree(b)) => Forest(a - b),
                (Forest(a), Forest(b)) => Forest(a - b),
                _ => hbug!("oper"),
            },
            (true, false) => match (ra, b) {
                (Tree(a), Tree(b)) => if div { Tree(a / b) } else { Forest(a - b) },
                (Tree(a), Forest(b)) => if div { Tree(a / b) } else { hbug!("t-f") },
                (Forest(a), Tree(b)) => Forest(a - b),
                (Forest(a), Forest(b)) => Forest(a - b),
                _ => hbug!("oper"),
            },
            (true, true) => match (ra, rb) {
                (Tree(a), Tree(b)) => if div { Tree(a / b) } else { Forest(a - b) },
                (Tree(a), Forest(b)) => if div { Tree(a / b) } else { hbug!("t-f") },
                (Forest(a), Tree(b)) => Forest(a - b),
                (Forest(a), Forest(b)) => Forest(a - b),
                _ => hbug!("oper"),
            },
        };
        self.slots[y] = z;
    }

    /// The printed text of slot s, if all ways to print it agree.
    pub fn text(&self, s: usize) -> String {
        let r = catch_unwind(AssertUnwindSafe(|| match &self.slots[s] {
            _ if self.mit.as_ref().map(|m| m.s) == Some(s) => String::new(),
            Slot::Tree(t) => { let a = t.to_string(); let b = t.root().to_string(); if a == b { debug(t, debug(t.root(), a)) } else { format!("tree {} / node {}", a, b) } }
            Slot::Forest(f) => debug(f, f.to_string()),
            Slot::Rc(h) => debug(h, h.to_string()),
            _ => String::new(),
        }));
        r.unwrap_or("PANIC".into())
    }

    /// End of a behaviour: release everything; Err describes a leak or memory error.
    pub fn finish(&mut self) -> Result<(), String> {
        let res = {
            let _t = mem::track();
            catch_unwind(AssertUnwindSafe(|| {
                self.mit = None;
                for i in 0..self.slots.len() { let z = self.slots[i].take(); drop(z) }
            }))
        };
        if res.is_err() { return Err("panic while dropping everything".into()) }
        Ok(())
    }
}

