//! Memory accounting.  Every allocation carries a header; allocations made while a library call is
//! running are "tracked".  Freed tracked blocks are poisoned and kept in quarantine until the end of
//! the behaviour, so that reads see garbage and writes are noticed; a second free is noticed too.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::{AcqRel, Acquire, Relaxed}};

pub struct Alloc;
thread_local! { static TRACK: Cell<bool> = const { Cell::new(false) } }
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static ERRORS: AtomicUsize = AtomicUsize::new(0);
pub static TOTAL: AtomicUsize = AtomicUsize::new(0);
static QUAR: AtomicPtr<Header> = AtomicPtr::new(std::ptr::null_mut());

const M_TRACKED: usize = 0xA11C_0001_7EAC_3D01;
const M_PLAIN: usize = 0xA11C_0001_7EAC_3D02;
const M_FREED: usize = 0xDEAD_0001_7EAC_3D03;
pub const POISON: u8 = 0xD5;

#[repr(C)]
struct Header { magic: usize, size: usize, align: usize, next: *mut Header }
const H: usize = 64; // keeps alignment up to 64

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > H { return System.alloc(l) }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + H, H));
        if p.is_null() { return p }
        let h = p as *mut Header;
        let t = TRACK.try_with(|t| t.get()).unwrap_or(false);
        (*h).magic = if t { M_TRACKED } else { M_PLAIN };
        (*h).size = l.size(); (*h).align = l.align(); (*h).next = std::ptr::null_mut();
        if t { LIVE.fetch_add(1, Relaxed); TOTAL.fetch_add(1, Relaxed); }
        p.add(H)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > H { return System.dealloc(p, l) }
        let h = p.sub(H) as *mut Header;
        match (*h).magic {
            M_PLAIN => { (*h).magic = M_FREED; System.dealloc(h as *mut u8, Layout::from_size_align_unchecked(l.size() + H, H)) }
            M_TRACKED => {
                if (*h).size != l.size() || (*h).align != l.align() { ERRORS.fetch_add(1, Relaxed); }
                (*h).magic = M_FREED;
                LIVE.fetch_sub(1, Relaxed);
                std::ptr::write_bytes(p, POISON, (*h).size);
                let _ = QUAR.fetch_update(AcqRel, Acquire, |q| { (*h).next = q; Some(h) });
            }
            _ => { ERRORS.fetch_add(1, Relaxed); }
        }
    }
}

/// Release the quarantine; returns the number of blocks written to after they were freed.
pub fn flush() -> usize {
    let mut bad = 0;
    unsafe {
        let mut h = QUAR.swap(std::ptr::null_mut(), AcqRel);
        while !h.is_null() {
            let n = (*h).next;
            let p = (h as *mut u8).add(H);
            if (0..(*h).size).any(|i| *p.add(i) != POISON) { bad += 1 }
            System.dealloc(h as *mut u8, Layout::from_size_align_unchecked((*h).size + H, H));
            h = n;
        }
    }
    bad
}

pub struct Tracking(bool);
/// Track allocations until the guard is dropped.
pub fn track() -> Tracking { Tracking(TRACK.with(|t| t.replace(true))) }
pub fn untrack() -> Tracking { Tracking(TRACK.with(|t| t.replace(false))) }
impl Drop for Tracking { fn drop(&mut self) { TRACK.with(|t| t.set(self.0)) } }
