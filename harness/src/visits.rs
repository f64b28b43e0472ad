//! Builds trees and forests from sequences of visits that may not add up (Rebuild.tla).
use crate::exec::{Exec, Recipe, Slot};
use crate::json::J;
use crate::payload::{self, P};
use crate::{mem, obs};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use trees::{bfs, Forest, Size, Tree};

fn size(a: &J) -> Size { let n = a.nums(); Size { degree: n[0] as usize, descendants: n[1] as usize } }   // -1 becomes the greatest number

pub fn run(a: &[J]) -> Vec<(&'static str, String)> {
    let tree = a[1].str() == "visits tree";
    let rows: Vec<Vec<i32>> = a[4].arr().iter().map(|r| r.nums().iter().map(|x| *x as i32).collect()).collect();
    let mut bad = vec![];
    for how in 0..4 {
        payload::reset();
        let live0 = mem::LIVE.load(Relaxed);
        let errs0 = mem::ERRORS.load(Relaxed);
        let mut e = Exec::new(1, Recipe::S, 1);
        let res = {
            let _t = mem::track();
            let v: Vec<bfs::Visit<P>> = a[3].arr().iter().enumerate().map(|(i, z)| bfs::Visit { data: P::new(i as i32 + 1), size: size(z) }).collect();
            let size = if tree { match v.get(0) { Some(x) => Size { degree: 1, descendants: x.size.descendants }, None => Size { degree: 1, descendants: 0 } } } else { size(&a[2]) };
            catch_unwind(AssertUnwindSafe(|| {
                let mut i = v.into_iter();
                macro_rules! make { ($k:ident, $b:ident) => { match how {
                    0 => $k::from(bfs::$b { iter: i, size }),
                    1 => $k::from(bfs::$b { iter: std::iter::from_fn(move || i.next()), size }),
                    2 => $k::from(bfs::$b { iter: i, size }.map(|p| p)),
                    _ => { let (iter, size) = bfs::$b { iter: i, size }.wrap().iter_and_size(); $k::from(bfs::$b { iter: iter.fuse(), size }) }
                } } }
                if tree { Slot::Tree(make!(Tree, BfsTree)) } else { Slot::Forest(make!(Forest, BfsForest)) }
            }))
        };
        match res {
            Ok(s) => {
                e.slots[1] = s;
                if rows.is_empty() {
                    bad.push(("visits", format!("{}: accepted, sizes do not add up", how)));
                    std::mem::forget(e); mem::flush();
                    return bad
                }
                let mut exp = vec![if tree { 1 } else { 2 }, 0, rows.len() as i32];
                for r in &rows { exp.push(r.len() as i32); exp.extend(r) }
                match obs::observe(&e) {
                    Ok(o) => if o != exp { bad.push(("visits", format!("{}: built {}", how, obs::show(&o)))); std::mem::forget(e); mem::flush(); return bad },
                    Err(m) => { bad.push(("visits", format!("{}: reading panicked: {}", how, m))); std::mem::forget(e); mem::flush(); return bad }
                }
                { let _t = mem::track(); e.slots[1] = Slot::None; }
                if payload::alive() != 0 { bad.push(("visits", format!("{}: {} items never dropped", how, payload::alive()))) }
                let live = mem::LIVE.load(Relaxed);
                if live != live0 { bad.push(("visits", format!("{}: {} allocations never released", how, live as i64 - live0 as i64))) }
            }
            Err(_) => if !rows.is_empty() { bad.push(("visits", format!("{}: refused", how))) },   // what was announced so far may leak
        }
        if !payload::ledger().errors.is_empty() || mem::ERRORS.load(Relaxed) != errs0 { bad.push(("visits", format!("{}: {:?}", how, payload::ledger().errors))) }
        if mem::flush() > 0 { bad.push(("visits", format!("{}: released memory was written to", how))) }
        if !bad.is_empty() { break }
    }
    bad
}
