//! Behaviours of TreesMT.tla on real threads.  The threads take turns as the behaviour says, by a counter that
//! orders nothing (Relaxed): what one thread did is known to another only through what they hand over.  So a race
//! detector (Miri) sees races between pieces of one tree, and the allocator and the ledger see their consequences.
//! Every behaviour runs again with neighbouring operations of different threads overlapping: they use different
//! slots, so by the specification (ThreadsDontShow) each does what it does alone, and the end is the same.
use crate::exec::{Exec, Op, Out, Recipe, Slot};
use crate::payload::{self, P};
use crate::{graph, mem, obs};
use std::mem::ManuallyDrop;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use trees::walk::{ForestWalk, TreeWalk, Visit};

#[derive(Clone, Copy, PartialEq, Debug)]
enum What { Do, Give, Take, Show, Look, ShowDone, Observe, Finish }
/// turn: what happens in one turn happens at the same time, in different threads
struct Ev { t: usize, step: usize, what: What, turn: usize }

struct Moved(Slot);
unsafe impl Send for Moved {} // only cursors are moved
struct Lent(*const Slot);
unsafe impl Send for Lent {}

struct Plan { evs: Vec<Ev>, holder: Vec<Vec<usize>>, size: Vec<usize> }
/// Who does what, in which order.  holder[i]: the thread holding each slot after i steps.
fn plan(walk: &graph::Walk, ns: usize, nt: usize, every: bool, order: u64, overlap: bool) -> Plan {
    let kinds = |s: &graph::State| -> Vec<i32> { obs::decode(&s.obs).iter().map(|x| x.kind).collect() };
    let mut holder = vec![vec![0; ns + 1]];
    let mut evs = vec![];
    let mut before: Vec<i32> = walk.start.map(|s| kinds(s)).unwrap_or(vec![0; ns]);
    for (i, (op, _, exp)) in walk.steps.iter().enumerate() {
        let mut h = holder[i].clone();
        let used = [op.s, op.x].into_iter().find(|z| *z != 0 && *z <= ns && (op.o != "peek" && op.o != "send" || *z == op.s) && before[*z - 1] != 0);
        let by = used.map(|z| h[z]).unwrap_or(0);
        let mut ev = |t: usize, what: What| evs.push(Ev { t, step: i, what, turn: 0 });
        match &op.o[..] {
            "send" => { ev(by, What::Give); ev(op.v as usize, What::Take); h[op.s] = op.v as usize }
            "peek" => { ev(by, What::Show); ev(op.v as usize, What::Look); ev(by, What::ShowDone) }
            _ => ev(by, What::Do),
        }
        let after = kinds(exp);
        for z in 1..=ns { if after[z - 1] == 0 { h[z] = 0 } else if before[z - 1] == 0 { h[z] = by } }
        holder.push(h);
        before = after;
        if every { for t in 0..nt { ev(t, What::Observe) } } else { ev(by, What::Observe) }
    }
    let n = walk.len();
    for k in 0..nt { evs.push(Ev { t: (k + order as usize) % nt, step: n, what: What::Finish, turn: 0 }) }
    if overlap {
        // an operation moves back to the turn of the one before it, unless its thread has something to do since then;
        // what is between them is not observed
        let mut k = 0;
        while k < evs.len() {
            if evs[k].what == What::Do {
                let mut j = k + 1;
                while j < evs.len() && evs[j].what == What::Observe && evs[j].step == evs[k].step { j += 1 }
                if j < evs.len() && evs[j].what == What::Do && evs[j].t != evs[k].t && !meet(walk, evs[k].step, evs[j].step, ns) {
                    let e = evs.remove(j);
                    evs.drain(k + 1..j);
                    evs.insert(k + 1, Ev { turn: 1, ..e });
                    k += 1;
                }
            }
            k += 1;
        }
        let mut last = false;
        for e in evs.iter_mut() { if e.what == What::Finish { e.turn = last as usize; last = true } }
    }
    // so far 1: with the event before; now the number of the turn
    let mut size: Vec<usize> = vec![];
    for e in evs.iter_mut() {
        if e.turn == 0 || size.is_empty() { size.push(0) }
        *size.last_mut().unwrap() += 1;
        e.turn = size.len() - 1;
    }
    Plan { evs, holder, size }
}
/// Do two consecutive operations use a slot in common?  (What the second one uses may come from the first.)
fn meet(walk: &graph::Walk, i: usize, j: usize, ns: usize) -> bool {
    let kinds = |k: usize| -> Vec<i32> { if k == 0 { walk.start.map(|s| obs::decode(&s.obs).iter().map(|x| x.kind).collect()).unwrap_or(vec![0; ns]) } else { obs::decode(&walk.steps[k - 1].2.obs).iter().map(|x| x.kind).collect() } };
    let (a, b, c) = (kinds(i), kinds(i + 1), kinds(j + 1));
    let uses = |k: usize, p: &[i32], q: &[i32], z: usize| { let o = walk.steps[k].0; o.s == z || o.x == z || p[z - 1] != q[z - 1] };
    (1..=ns).any(|z| uses(i, &a, &b, z) && uses(j, &b, &c, z))
}
/// The observation with the slots of other threads left out.
fn mine(o: &[i32], h: &[usize], me: usize) -> Vec<i32> {
    let mut out = vec![];
    for (k, s) in obs::decode(o).iter().enumerate() {
        if h[k + 1] != me || s.kind == 0 { out.extend([0, 0, 0]); continue }
        out.extend([s.kind, s.n, s.rows.len() as i32]);
        for r in &s.rows { out.push(r.len() as i32); out.extend(r) }
    }
    out
}
fn look(s: &Slot) -> Vec<i64> {
    fn all(n: &trees::Node<P>, r: &mut Vec<i64>) { r.push(n.data().get() as i64); for c in n.iter() { all(c, r) } }
    fn one(v: Option<Visit<P>>, r: &mut Vec<i64>) {
        r.push(obs::visit(&v).0 as i64);
        if let Some(v) = v {
            all(v.node(), r);
            let t = v.node().deep_clone();
            let mut q = vec![];
            all(t.root(), &mut q);
            if q[..] != r[1..] { r.push(-1) }
        }
    }
    let mut r = vec![];
    match s { Slot::WalkT(k) => one(k.get(), &mut r), Slot::WalkF(k) => one(k.get(), &mut r), _ => panic!("HARNESS: peek") }
    r
}

pub fn run(walk: &graph::Walk, ns: usize, nt: usize, recipe: Recipe, seed: u64, progress: &(dyn Fn(u64) + Sync)) -> Option<String> {
    if cfg!(miri) { return once(walk, ns, nt, recipe, seed, seed % 2 == 1, progress) }
    once(walk, ns, nt, recipe, seed, false, progress).or_else(|| once(walk, ns, nt, recipe, seed, true, progress))
}
fn once(walk: &graph::Walk, ns: usize, nt: usize, recipe: Recipe, seed: u64, overlap: bool, progress: &(dyn Fn(u64) + Sync)) -> Option<String> {
    payload::reset();
    let live0 = mem::LIVE.load(Relaxed);
    let err0 = mem::ERRORS.load(Relaxed);
    let p = plan(walk, ns, nt, !cfg!(miri), seed, overlap);
    let turn = AtomicUsize::new(0);
    let (came, went): (Vec<AtomicUsize>, Vec<AtomicUsize>) = p.size.iter().map(|_| (AtomicUsize::new(0), AtomicUsize::new(0))).unzip();
    let stop = AtomicBool::new(false);
    let (parcels, lent, back): (Vec<Mutex<Option<Moved>>>, Vec<Mutex<Option<Lent>>>, Vec<Mutex<bool>>) =
        (0..walk.len()).map(|_| (Mutex::new(None), Mutex::new(None), Mutex::new(false))).fold((vec![], vec![], vec![]), |mut a, (x, y, z)| { a.0.push(x); a.1.push(y); a.2.push(z); a });
    let relax = || { if cfg!(miri) { std::thread::yield_now() } else { for _ in 0..20 { std::hint::spin_loop() } std::thread::yield_now() } };
    let ledger_bad = || -> Option<String> { let l = payload::ledger(); if l.errors.is_empty() { None } else { Some(format!("{:?}", l.errors)) } };
    // what one thread does; Some(report) if something is not as it should be
    let body = |me: usize| -> Option<String> {
        let mut e = ManuallyDrop::new(Exec::new(ns, recipe, seed.wrapping_add(me as u64 * 977)));
        if me == 0 { if let Some(st) = walk.start { crate::build_start(&mut e, &st.obs) } }
        for ev in p.evs.iter() {
            if ev.t != me { continue }
            let k = ev.turn;
            while turn.load(Relaxed) != k { if stop.load(Relaxed) { return None } relax() }
            if p.size[k] > 1 { // start together
                came[k].fetch_add(1, Relaxed);
                let mut n = 0;
                while came[k].load(Relaxed) != p.size[k] { n += 1; if n % 2000 == 0 || cfg!(miri) { if stop.load(Relaxed) { return None } relax() } else { std::hint::spin_loop() } }
            }
            let at = ev.step + 1;
            let mut bad: Option<String> = None;
            match ev.what {
                What::Give => { let z = std::mem::replace(&mut e.slots[walk.steps[ev.step].0.s], Slot::None); *parcels[ev.step].lock().unwrap() = Some(Moved(z)) }
                What::Take => { let z = parcels[ev.step].lock().unwrap().take().expect("HARNESS: parcel"); e.slots[walk.steps[ev.step].0.s] = z.0 }
                What::Show => *lent[ev.step].lock().unwrap() = Some(Lent(&e.slots[walk.steps[ev.step].0.s])),
                What::Look => {
                    let s = lent[ev.step].lock().unwrap().take().expect("HARNESS: lent");
                    turn.store(k + 1, Relaxed); // the holder reads at the same time
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _t = mem::track(); look(unsafe { &*s.0 }) }));
                    payload::ledger().dropped.clear();
                    let want = &walk.steps[ev.step].1.r;
                    bad = match r { Ok(r) => if r == *want { None } else { Some(crate::report(vec!["res"], at, format!("{:?}", want), format!("{:?} read by another thread", r))) },
                                    Err(_) => Some(crate::report(vec!["panic"], at, format!("{:?}", want), "panic in another thread".into())) };
                    *back[ev.step].lock().unwrap() = true;
                    if bad.is_none() { bad = ledger_bad().map(|m| crate::report(vec!["mem"], at, "no access to released memory".into(), m)) }
                    if bad.is_some() { stop.store(true, Relaxed); return bad }
                    continue
                }
                What::ShowDone => {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| look(&e.slots[walk.steps[ev.step].0.s])));
                    payload::ledger().dropped.clear();
                    let want = &walk.steps[ev.step].1.r;
                    if r.as_ref().ok() != Some(want) { bad = Some(crate::report(vec!["res"], at, format!("{:?}", want), format!("{:?}", r.ok()))) }
                    while !*back[ev.step].lock().unwrap() { if stop.load(Relaxed) { return None } relax() }
                }
                What::Do => {
                    let (op, out, _): &(&Op, &Out, _) = &walk.steps[ev.step];
                    progress(at as u64);
                    e.shuffle_storage();
                    let got = e.step(op);
                    if got != **out {
                        let mut c = vec![];
                        if got.e != out.e { c.push("panic") } else { if got.r != out.r { c.push("res") } if got.d != out.d { c.push("drop") } }
                        bad = Some(crate::report(c, at, format!("r={:?} panic={} dropped={:?}", out.r, out.e, out.d), format!("r={:?} panic={} dropped={:?} in thread {}", got.r, got.e, got.d, me)));
                    }
                }
                What::Observe => {
                    let want = mine(&walk.steps[ev.step].2.obs, &p.holder[ev.step + 1], me);
                    match obs::observe(&e) {
                        Ok(o) => if o != want { bad = Some(crate::report(obs::classify(&want, &o), at, obs::show(&want), format!("{} in thread {}", obs::show(&o), me))) },
                        Err(m) => bad = Some(crate::report(vec!["obs"], at, obs::show(&want), format!("reading panicked: {}", m))),
                    }
                }
                What::Finish => { progress(at as u64); if let Err(m) = e.finish() { bad = Some(crate::report(vec!["panic"], at, "everything can be dropped".into(), m)) } }
            }
            if bad.is_none() { bad = ledger_bad().map(|m| crate::report(vec!["mem"], at, "no access to released memory".into(), m)) }
            if bad.is_some() { stop.store(true, Relaxed); return bad }
            if went[k].fetch_add(1, Relaxed) + 1 == p.size[k] { turn.store(k + 1, Relaxed) }
            if ev.what == What::Finish { ManuallyDrop::into_inner(e); return None }
        }
        None
    };
    let reports: Vec<String> = std::thread::scope(|sc| {
        let body = &body;
        let hs: Vec<_> = (0..nt).map(|me| sc.spawn(move || body(me))).collect();
        hs.into_iter().filter_map(|h| h.join().expect("HARNESS: thread")).collect()
    });
    if let Some(r) = reports.into_iter().next() { return Some(r) }
    let end = walk.len() + 1;
    let mut got = vec![];
    let mut c = vec![];
    if mem::ERRORS.load(Relaxed) != err0 { c.push("mem"); got.push(format!("{} allocator errors", mem::ERRORS.load(Relaxed) - err0)) }
    if payload::alive() != 0 { c.push("leak"); got.push(format!("{} items never dropped", payload::alive())) }
    let live = mem::LIVE.load(Relaxed);
    if live != live0 { c.push("leak"); got.push(format!("{} allocations never released", live as i64 - live0 as i64)) }
    let bad = mem::flush();
    if bad > 0 { c.push("mem"); got.push(format!("{} released blocks were written to", bad)) }
    if c.is_empty() { None } else { Some(crate::report(c, end, "everything dropped once and all memory released".into(), got.join("; "))) }
}

/// May a T cross (or be shared between) threads?  Answered without refusing to compile.
pub fn auto_traits() -> Vec<(&'static str, bool, bool)> {
    use std::marker::PhantomData;
    struct S<T: ?Sized>(PhantomData<T>); struct Y<T: ?Sized>(PhantomData<T>);
    trait No { fn is(&self) -> bool { false } }
    impl<T: ?Sized> No for S<T> {}
    impl<T: ?Sized> No for Y<T> {}
    impl<T: ?Sized + Send> S<T> { fn is(&self) -> bool { true } }
    impl<T: ?Sized + Sync> Y<T> { fn is(&self) -> bool { true } }
    macro_rules! send { ($t:ty) => { S::<$t>(PhantomData).is() } }
    macro_rules! sync { ($t:ty) => { Y::<$t>(PhantomData).is() } }
    type NoSend = std::sync::MutexGuard<'static, i32>; // Sync only
    type NoSync = std::cell::Cell<i32>;                // Send only
    type Rc = std::rc::Rc<i32>;                        // neither
    let mut v: Vec<(&'static str, bool, bool)> = vec![]; // (what, must be, is)
    macro_rules! cursor { ($w:ident) => {
        v.push((concat!(stringify!($w), "<i32>: Send"), true, send!($w<i32>)));
        v.push((concat!(stringify!($w), "<i32>: Sync"), true, sync!($w<i32>)));
        v.push((concat!(stringify!($w), "<Rc>: Send"), false, send!($w<Rc>)));
        v.push((concat!(stringify!($w), "<Rc>: Sync"), false, sync!($w<Rc>)));
        v.push((concat!(stringify!($w), "<Cell>: Sync"), false, sync!($w<NoSync>)));
        v.push((concat!(stringify!($w), "<MutexGuard>: Send"), false, send!($w<NoSend>)));
    } }
    cursor!(TreeWalk); cursor!(ForestWalk);
    use trees::{RcNode, WeakNode, IterRc};
    macro_rules! local { ($w:ident) => {
        v.push((concat!(stringify!($w), "<i32>: Send"), false, send!($w<i32>)));
        v.push((concat!(stringify!($w), "<i32>: Sync"), false, sync!($w<i32>)));
    } }
    local!(RcNode); local!(WeakNode); local!(IterRc);
    macro_rules! owned { ($w:ty, $t:ty) => {
        v.push((concat!(stringify!($w), ": Send"), false, send!($w) && !send!($t)));
        v.push((concat!(stringify!($w), ": Sync"), false, sync!($w) && !sync!($t)));
    } }
    owned!(trees::Tree<Rc>, Rc); owned!(trees::Forest<Rc>, Rc); owned!(trees::Node<Rc>, Rc); owned!(trees::IntoIter<Rc>, Rc);
    owned!(trees::Tree<NoSync>, NoSync); owned!(trees::Forest<NoSync>, NoSync); owned!(trees::Node<NoSync>, NoSync);
    owned!(trees::Tree<NoSend>, NoSend); owned!(trees::Forest<NoSend>, NoSend); owned!(trees::Node<NoSend>, NoSend);
    owned!(trees::Iter<'static, NoSync>, NoSync); owned!(trees::IterMut<'static, Rc>, Rc);
    v
}
