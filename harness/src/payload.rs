//! The data type put into the trees.  Every item has a serial number; a ledger knows which are alive.
use std::cmp::Ordering;
use crate::mem;

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::Relaxed};
/// What happened to items, seen by one thread.  Which items are alive is shared by all threads; no access to
/// the ledger orders one thread's work after another's.
pub struct Ledger { pub dropped: Vec<i32>, pub errors: Vec<String>, pub clones: usize }
thread_local! { static LEDGER: UnsafeCell<Ledger> = const { UnsafeCell::new(Ledger { dropped: Vec::new(), errors: Vec::new(), clones: 0 }) } }
pub fn ledger() -> &'static mut Ledger { LEDGER.with(|l| unsafe { &mut *l.get() }) }
const MAX: usize = if cfg!(miri) { 1 << 12 } else { 1 << 22 };
static STATE: [AtomicU8; MAX] = [const { AtomicU8::new(0) }; MAX];   // 1: alive, 2: dropped
static NEXT: AtomicUsize = AtomicUsize::new(0);
static ALIVE: AtomicUsize = AtomicUsize::new(0);
fn state(serial: u32) -> u8 { STATE.get(serial as usize).map(|a| a.load(Relaxed)).unwrap_or(0) }
pub fn reset() {
    let n = NEXT.swap(0, Relaxed);
    for a in &STATE[..n.min(MAX)] { a.store(0, Relaxed) }
    ALIVE.store(0, Relaxed);
    let l = ledger(); l.dropped.clear(); l.errors.clear(); l.clones = 0;
}
thread_local! { static DROPS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) } }
thread_local! { static FUSE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) } }
/// What user code does instead of panicking: (1 pop first, 2 pop last, 3 data_mut, 4 push, 5 look for the parent), by which handle
thread_local! { static CALL: std::cell::Cell<Option<(u32, *const trees::RcNode<P>)>> = const { std::cell::Cell::new(None) } }
thread_local! { static SAW: std::cell::Cell<i32> = const { std::cell::Cell::new(-1) } }
pub fn uses(c: Option<(u32, *const trees::RcNode<P>)>) { CALL.with(|f| f.set(c)); SAW.with(|f| f.set(-1)) }
pub fn saw() -> i32 { SAW.with(|f| f.get()) }
fn user(what: &str) {
    match CALL.with(|f| f.take()) {
        None => panic!("user {}", what),
        Some((k, h)) => {
            let h = unsafe { &*h };
            match k {
                1 => { h.pop_front(); }
                2 => { h.pop_back(); }
                3 => { let mut d = h.data_mut(); d.flip(); d.flip() }
                4 => h.push_back(trees::Tree::new(P::new(-1))),
                _ => { let p = h.parent().map(|p| p.data().get()).unwrap_or(0); assert!(h.is_root() == (p == 0)); SAW.with(|f| f.set(p)) }
            }
        }
    }
}
/// The n-th use of an item by user code from now on panics (0: none does).
pub fn arm(n: u32) { FUSE.with(|f| f.set(n)) }
/// The n-th destructor of an item from now on panics.
pub fn arm_drop(n: u32) { DROPS.with(|f| f.set(n)) }
pub fn fuse() { FUSE.with(|f| { let n = f.get(); if n > 0 { f.set(n - 1); if n == 1 { user("code") } } }) }
pub fn alive() -> usize { ALIVE.load(Relaxed) }
fn error(s: String) { let _u = mem::untrack(); let l = ledger(); if l.errors.len() < 20 { l.errors.push(s) } }

/// With the feature "pad", items are large and strictly aligned; with "pod", they own nothing and have no destructor.
#[cfg_attr(feature = "pad", repr(align(64)))]
pub struct P { val: i32, serial: u32, #[cfg(not(feature = "pod"))] heap: Box<u64>, #[cfg(feature = "pad")] fill: [u32; 40] }
pub const POD: bool = cfg!(feature = "pod");
#[cfg(not(feature = "pod"))] const K: u64 = 0x5EED_0000_0000;

impl P {
    pub fn new(val: i32) -> P {
        let serial = NEXT.fetch_add(1, Relaxed);
        if serial >= MAX { eprintln!("HARNESS: too many items"); std::process::exit(3) }
        STATE[serial].store(1, Relaxed); ALIVE.fetch_add(1, Relaxed);
        let serial = serial as u32;
        P { val, serial, #[cfg(not(feature = "pod"))] heap: { let _t = mem::track(); Box::new(K + serial as u64) }, #[cfg(feature = "pad")] fill: [serial; 40] }
    }
    #[cfg(feature = "pad")] fn pad_ok(&self) -> bool { self as *const P as usize % 64 == 0 && self.fill.iter().all(|x| *x == self.serial) }
    #[cfg(not(feature = "pad"))] fn pad_ok(&self) -> bool { true }
    #[cfg(not(feature = "pod"))] fn heap_ok(&self) -> bool { *self.heap == K + self.serial as u64 }
    #[cfg(feature = "pod")] fn heap_ok(&self) -> bool { true }
    fn ok(&self) -> bool { state(self.serial) == 1 && self.heap_ok() && self.pad_ok() }
    pub fn get(&self) -> i32 {
        if !self.ok() { error(format!("read of a dead or corrupt item (val {})", self.val)) }
        self.val
    }
    pub fn set(&mut self, v: i32) {
        if !self.ok() { error(format!("write to a dead or corrupt item (val {})", self.val)) }
        self.val = v
    }
    pub fn flip(&mut self) { let v = self.get(); self.set(if v % 2000 >= 1000 { v - 1000 } else { v + 1000 }) }
    pub fn shift(&mut self) { let v = self.get(); self.set(if v >= 2000 { v - 2000 } else { v + 2000 }) }
}
impl Clone for P { fn clone(&self) -> P { fuse(); ledger().clones += 1; P::new(self.get()) } }
#[cfg(not(feature = "pod"))]
impl Drop for P {
    fn drop(&mut self) {
        let l = ledger();
        match state(self.serial) {
            1 if *self.heap == K + self.serial as u64 => {
                STATE[self.serial as usize].store(2, Relaxed); ALIVE.fetch_sub(1, Relaxed);
                { let _u = mem::untrack(); l.dropped.push(self.val) }
                DROPS.with(|f| { let n = f.get(); if n > 0 { f.set(n - 1); if n == 1 { user("destructor") } } })
            }
            2 => { error(format!("item {} dropped twice", self.val)); std::mem::forget(std::mem::replace(&mut self.heap, Box::new(0))) }
            _ => error(format!("drop of a corrupt item {}", self.val)),
        }
    }
}
impl PartialEq for P { fn eq(&self, o: &P) -> bool { fuse(); self.get() == o.get() } }
impl Eq for P {}
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for P { fn cmp(&self, o: &P) -> Ordering { fuse(); self.get().cmp(&o.get()) } }
impl std::hash::Hash for P { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { fuse(); self.get().hash(h) } }
impl std::fmt::Display for P { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { fuse(); write!(f, "{}", self.get()) } }
impl std::fmt::Debug for P { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.get()) } }
