//! The same state, read in other ways: by a cursor, breadth first, as text, from a copy, by comparing and hashing the copy,
//! through the other methods of the iterators, and with many more handles around.
//! Every reading has to show what the specification's state says (its rows); none of them changes anything.
use crate::exec::{rnd, Exec, Slot};
use crate::obs::{self, SlotObs};
use crate::payload::{self, P};
use crate::mem;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use trees::{Forest, ForestWalk, Node, RcNode, Tree, TreeWalk};

/// The readings, and as a set of bits which of them take place.
const HOW: [&str; 10] = ["cursor", "bfs", "text", "copy", "cmp", "iter", "itermut", "intoiter", "iterrc", "crowd"];
static ON: AtomicU32 = AtomicU32::new(0);
pub fn on(classes: &str) { ON.store(HOW.iter().enumerate().map(|(i, h)| if classes == "all" || classes.split(',').any(|c| c == *h) { 1 << i } else { 0 }).sum(), Relaxed) }
type Row = Vec<i32>;
fn ends(rows: &[Row], i: usize) -> usize { rows[i + 1..].iter().position(|r| r[0] <= rows[i][0]).map(|n| i + 1 + n).unwrap_or(rows.len()) }
/// Begin 1, End 2, Leaf 3: (visit, data, parent's data), in bracket order
fn brackets(rows: &[Row], from: usize, to: usize, par: i32, o: &mut Vec<(i32, i32, i32)>) {
    let mut i = from;
    while i < to {
        let e = ends(rows, i).min(to);
        if e == i + 1 { o.push((3, rows[i][1], par)) }
        else { o.push((1, rows[i][1], par)); brackets(rows, i + 1, e, rows[i][1], o); o.push((2, rows[i][1], par)) }
        i = e
    }
}
/// (data, degree, descendants), level by level
fn levels(rows: &[Row]) -> Vec<(i32, i32, i32)> {
    let mut r: Vec<&Row> = rows.iter().collect();
    r.sort_by_key(|r| r[0]);
    r.iter().map(|r| (r[1], r[2], r[3] - 1)).collect()
}
fn text(rows: &[Row], from: usize, to: usize, o: &mut String, forest: bool) {
    let mut i = from;
    while i < to {
        let e = ends(rows, i).min(to);
        o.push_str(&rows[i][1].to_string());
        if e > i + 1 { o.push_str("( "); text(rows, i + 1, e, o, true); o.push(')') }
        if forest { o.push(' ') }
        i = e
    }
}
fn same<T: PartialEq + std::fmt::Debug>(exp: T, got: T) -> Result<(), String> { if exp == got { Ok(()) } else { Err(format!("{:?} instead of {:?}", got, exp)) } }
fn digest<T: Hash>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn alike<T: Ord + Hash>(a: &T, b: &T) -> Result<(), String> {
    same((true, false, Some(Ordering::Equal), Ordering::Equal, true), (a == b, a != b, a.partial_cmp(b), a.cmp(b), digest(a) == digest(b)))
}
/// The children of the i-th row.
fn under(rows: &[Row], i: usize) -> Vec<usize> { (i + 1..ends(rows, i)).filter(|j| rows[*j][0] == rows[i][0] + 1).collect() }
/// An iterator used in all the ways there are: n-th, then the rest; last; count; all by internal iteration.  In a list as
/// long as want every way has to see just want.
macro_rules! ways {
    ($it:expr, $get:expr, $want:expr, $n:expr) => {{
        let (want, n): (&[i32], usize) = ($want, $n);
        let mut i = $it;
        let x = i.nth(n).map($get);
        same(want.get(n).copied(), x).map_err(|m| format!("nth({}): {}", n, m))?;
        let left = want.len().saturating_sub(n + 1);
        same((left, Some(left)), i.size_hint()).map_err(|m| format!("size after nth({}): {}", n, m))?;
        let mut rest = vec![];
        while let Some(x) = i.next() { rest.push($get(x)); if rest.len() > left { break } }
        same(want.get(n + 1..).unwrap_or(&[]).to_vec(), rest).map_err(|m| format!("after nth({}): {}", n, m))?;
        drop(i);
        let mut i = $it;
        if n % 2 == 1 { i.next(); }
        let tail = want.get(n % 2..).unwrap_or(&[]);
        match n % 5 {
            0 => same(tail.len(), i.count()).map_err(|m| format!("count: {}", m))?,
            1 => same(tail.last().copied(), i.last().map($get)).map_err(|m| format!("last: {}", m))?,
            2 => { let mut all = vec![]; i.for_each(|x| all.push($get(x))); same(tail.to_vec(), all).map_err(|m| format!("for_each: {}", m))? }
            3 => same(tail.iter().copied().step_by(2).collect::<Vec<_>>(), i.step_by(2).map($get).collect::<Vec<_>>()).map_err(|m| format!("step_by: {}", m))?,
            _ => same(tail.iter().copied().skip(n).collect::<Vec<_>>(), i.skip(n).map($get).collect::<Vec<_>>()).map_err(|m| format!("skip: {}", m))?,
        }
    }};
}
fn vals(rows: &[Row], i: usize) -> Vec<i32> { under(rows, i).iter().map(|j| rows[*j][1]).collect() }
fn each_node(n: &Node<P>, rows: &[Row], i: usize, r: &mut dyn FnMut() -> u64) -> Result<(), String> {
    let want = vals(rows, i);
    let k = r() as usize % (want.len() + 2);
    ways!(n.iter(), |c: &Node<P>| c.data().get(), &want, k);
    for (c, j) in n.iter().zip(under(rows, i)) { each_node(c, rows, j, r)? }
    Ok(())
}
fn each_mut(mut n: std::pin::Pin<&mut Node<P>>, rows: &[Row], i: usize, r: &mut dyn FnMut() -> u64) -> Result<(), String> {
    let want = vals(rows, i);
    let k = r() as usize % (want.len() + 2);
    ways!(n.iter_mut(), |c: std::pin::Pin<&mut Node<P>>| c.data().get(), &want, k);
    for (c, j) in n.iter_mut().zip(under(rows, i)) { each_mut(c, rows, j, r)? }
    Ok(())
}
fn each_rc(h: &RcNode<P>, rows: &[Row], i: usize, r: &mut dyn FnMut() -> u64) -> Result<(), String> {
    let want = vals(rows, i);
    let k = r() as usize % (want.len() + 2);
    ways!(h.iter_rc(), |c: RcNode<P>| c.data().get(), &want, k);
    for (c, j) in h.iter_rc().zip(under(rows, i)) { each_rc(&c, rows, j, r)? }
    Ok(())
}
/// Many more handles to all nodes, weak ones too, which are gone in the end.
fn crowd(h: &RcNode<P>, r: &mut dyn FnMut() -> u64) -> Result<(), String> {
    let big = if cfg!(miri) { 20 } else { 300 };
    let n = if r() % 24 == 0 { big } else { 3 };
    let v = h.data().get();
    let (mut hs, mut ws) = (vec![], vec![]);
    for _ in 0..n {
        match r() % 3 { 0 => hs.push(h.clone()), 1 => ws.push(h.downgrade()), _ => { ws.push(h.downgrade()); hs.push(h.clone()) } }
        if let Some(w) = ws.last() { if r() % 2 == 0 { hs.push(w.upgrade().ok_or("no upgrade")?) } }
    }
    while !hs.is_empty() || !ws.is_empty() {
        if !hs.is_empty() && (ws.is_empty() || r() % 2 == 0) { let i = r() as usize % hs.len(); let x = hs.swap_remove(i); let got = x.data().get(); same(v, got)? }
        else { let i = r() as usize % ws.len(); ws.swap_remove(i); }
    }
    for c in h.iter_rc() { crowd(&c, r)? }
    Ok(())
}
/// Something with n nodes to be overwritten.
fn other(n: usize, r: u64) -> Tree<P> {
    let mut t = Tree::new(P::new(-1));
    if r % 3 == 0 { return t }
    for _ in 1..n {
        let x = Tree::new(P::new(-1));
        if r % 3 == 1 { t.push_back(x) } else { let mut y = x; std::mem::swap(&mut y, &mut t); t.push_front(y) }
    }
    t
}
macro_rules! walked {
    ($walk:expr, $out:expr, $limit:expr) => {{
        let mut w = $walk;
        loop {
            let p = w.get_parent().map(|p| p.data().get()).unwrap_or(0);
            let v = match w.get() { None => break, v => obs::visit(&v) };
            $out.push((v.0, v.1, p));
            if $out.len() > $limit { break }
            w.forward();
        }
        w
    }};
}
macro_rules! leveled {
    ($bfs:expr) => {{
        let (it, size) = $bfs.wrap().iter_and_size();
        (it.map(|v| (v.data.get(), v.size.degree as i32, v.size.descendants as i32)).collect::<Vec<_>>(), (size.degree, size.descendants))
    }};
}
/// Returns the class of a difference and what it is.
pub fn reread(e: &mut Exec, exp: &[SlotObs], all: bool) -> Option<(&'static str, String)> {
    let on = ON.load(Relaxed);
    if on == 0 { return None }
    let only = if all { 0 } else { 1 + rnd(&mut e.rng) as usize % (e.slots.len() - 1) };
    let mut how = rnd(&mut e.rng) as usize % on.count_ones() as usize;
    how = (0..HOW.len()).filter(|k| on >> k & 1 == 1).nth(how).unwrap();
    for s in 1..e.slots.len() {
        if !all && s != only || e.mit.as_ref().map(|m| m.s) == Some(s) { continue }
        let x = &exp[s - 1];
        if x.rows.is_empty() || e.guards > 0 && x.kind == 4 { continue }
        let forest = x.kind == 2;
        let rows = if forest { &x.rows[1..] } else { &x.rows[..] };
        for k in 0..HOW.len() {
            if on >> k & 1 == 0 || !all && k != how { continue }
            let class = HOW[k];
            let slot = &mut e.slots[s];
            let rng = &mut e.rng;
            let mut next = || rnd(rng) >> 3;
            let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
                let _t = mem::track();
                match (k, &mut *slot) {
                    (0, Slot::Tree(_)) | (0, Slot::Forest(_)) => {
                        let mut want = vec![];
                        brackets(rows, 0, rows.len(), 0, &mut want);
                        let mut got = vec![];
                        match slot.take() {
                            Slot::Tree(t) => { let w = walked!(TreeWalk::from(t), got, want.len() + 3); *slot = Slot::Tree(Tree::from(w)) }
                            Slot::Forest(t) => { let w = walked!(ForestWalk::from(t), got, want.len() + 3); *slot = Slot::Forest(Forest::from(w)) }
                            _ => unreachable!(),
                        }
                        same(want, got)
                    }
                    (1, Slot::Tree(t)) => same((levels(rows), (1, rows.len() - 1)), leveled!(t.bfs())),
                    (1, Slot::Rc(h)) => same((levels(rows), (1, rows.len() - 1)), { let n = unsafe { h.node() }; leveled!(n.bfs()) }),
                    (1, Slot::Forest(f)) => same((levels(rows), (x.rows[0][2] as usize, rows.len())), leveled!(f.bfs())),
                    (2, sl) => {
                        let mut want = String::new();
                        text(rows, 0, rows.len(), &mut want, forest);
                        if forest { want = if rows.is_empty() { "()".into() } else { format!("( {})", want) } }
                        same(want, match sl { Slot::Tree(t) => t.to_string(), Slot::Forest(f) => f.to_string(), Slot::Rc(h) => h.to_string(), _ => return Ok(()) })
                    }
                    (3, Slot::Forest(f)) => {
                        same(x.rows.clone(), obs::forest_obs(&f.clone()))?;
                        let mut copy = Forest::new();
                        let n = next();
                        if n % 4 == 1 { for _ in 0..f.degree() { copy.push_back(other(1, 0)) } }
                        if n % 4 == 2 { copy.push_back(other(f.node_count(), next())) }
                        if n % 4 == 3 { for c in f.iter() { copy.push_front(c.deep_clone()) } }
                        copy.clone_from(f);
                        same(x.rows.clone(), obs::forest_obs(&copy))
                    }
                    (3, sl) => {
                        let copy = match sl {
                            Slot::Tree(t) if next() % 2 == 0 => { let mut c = if next() % 3 == 0 { t.clone() } else { other(rows.len(), next()) }; c.clone_from(t); c }
                            Slot::Tree(t) => t.clone(),
                            Slot::Rc(h) => h.deep_clone(),
                            _ => return Ok(()),
                        };
                        let mut want = x.rows.clone();
                        want[0][6] = 0;
                        same(want, obs::tree_obs(&copy))
                    }
                    (4, Slot::Tree(t)) => alike(t, &t.clone()),
                    (4, Slot::Forest(f)) => alike(f, &f.clone()),
                    (4, Slot::Rc(h)) => alike(h, &RcNode::<P>::from(h.deep_clone())),
                    (5, Slot::Tree(t)) => each_node(t.root(), rows, 0, &mut next),
                    (5, Slot::Forest(f)) => {
                        let want = vals(&x.rows, 0);
                        let n = next() as usize % (want.len() + 2);
                        ways!(f.iter(), |c: &Node<P>| c.data().get(), &want, n);
                        for (c, j) in f.iter().zip(under(&x.rows, 0)) { each_node(c, &x.rows, j, &mut next)? }
                        Ok(())
                    }
                    (6, Slot::Tree(t)) => each_mut(t.root_mut(), rows, 0, &mut next),
                    (6, Slot::Forest(f)) => {
                        let want = vals(&x.rows, 0);
                        let n = next() as usize % (want.len() + 2);
                        ways!(f.iter_mut(), |c: std::pin::Pin<&mut Node<P>>| c.data().get(), &want, n);
                        for (c, j) in f.iter_mut().zip(under(&x.rows, 0)) { each_mut(c, &x.rows, j, &mut next)? }
                        Ok(())
                    }
                    (7, sl) => {
                        let want = vals(&x.rows, 0);
                        let n = next() as usize % (want.len() + 2);
                        let list = || match &*sl { Slot::Tree(t) => t.deep_clone_forest(), Slot::Forest(f) => f.clone(), _ => Forest::new() };
                        if let Slot::Tree(_) | Slot::Forest(_) = sl { ways!(list().into_iter(), |c: Tree<P>| c.data().get(), &want, n) }
                        Ok(())
                    }
                    (8, Slot::Rc(h)) => each_rc(h, rows, 0, &mut next),
                    (9, Slot::Rc(h)) => crowd(h, &mut next),
                    _ => Ok(()),
                }
            }));
            payload::ledger().dropped.clear();
            match r {
                Ok(Ok(())) => (),
                Ok(Err(m)) => return Some((class, format!("slot {} read otherwise ({}): {}", s, class, m))),
                Err(_) => return Some((class, format!("slot {} read otherwise ({}): panic", s, class))),
            }
        }
    }
    None
}
