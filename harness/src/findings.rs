//! Known findings: the exact histories, executed; true while they still fail.
use crate::payload::{self, P};
use crate::{mem, sys};
use trees::Tree;
pub fn present(id: &str) -> Option<bool> {
    let f: fn() = match id { "detach-then-use" => detach_then_use, "swap-pinned" => swap_pinned, _ => return None };
    let (reports, _) = sys::run_jobs(&[0], 1, 10, &|_| true, &|_, _| {
        payload::reset();
        let r = std::panic::catch_unwind(f);
        if r.is_err() || !payload::ledger().errors.is_empty() { vec!["failed".into()] } else { vec![] }
    });
    Some(!reports.is_empty())
}
fn detach_then_use() {
    let _t = mem::track();
    let mut t = Tree::new(P::new(1));
    t.push_back(Tree::new(P::new(2)));
    let mut n = t.front_mut().unwrap();
    let c = n.detach();
    drop(c);
    n.data().get();
}
fn swap_pinned() {
    let _t = mem::track();
    let mut a = Tree::new(P::new(1));
    let mut b = Tree::new(P::new(2));
    std::mem::swap(&mut *a.root_mut(), &mut *b.root_mut());
    drop(a);
    b.data().get();
    std::mem::forget(b);
}
