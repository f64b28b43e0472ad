//! The state graph or the behaviours printed by TLC: compact form, and walks over them.
use crate::exec::{rnd, Op, Out};
use crate::json::{parse, parse_tlc, J};
use crate::obs;
use std::collections::HashMap;
use std::io::{Read, Write};

pub struct Edge { pub from: u32, pub to: u32, pub lbl: u32 }
#[derive(Default, Clone)]
pub struct State { pub obs: Vec<i32>, pub text: Vec<String> }
#[derive(Default)]
pub struct Graph { pub states: Vec<State>, pub edges: Vec<Edge>, pub lbls: Vec<(Op, Out)>, pub out: Vec<Vec<u32>>, pub init: Vec<u32>, pub level: Vec<i32>, pub pred: Vec<Vec<u32>> }

pub fn label(j: &J) -> (Op, Out) {
    let a = j.arr();
    (Op { o: a[0].str().to_string(), s: a[1].num() as usize, p: a[2].nums().iter().map(|x| *x as usize).collect(), x: a[3].num() as usize, v: a[4].num() },
     Out { r: a[5].nums(), e: a[6].num(), d: a[7].nums() })
}
pub fn op_json(op: &Op, out: &Out) -> J {
    let ns = |v: &[i64]| J::Arr(v.iter().map(|x| J::Num(*x)).collect());
    J::Arr(vec![J::Str(op.o.clone()), J::Num(op.s as i64), J::Arr(op.p.iter().map(|x| J::Num(*x as i64)).collect()), J::Num(op.x as i64), J::Num(op.v), ns(&out.r), J::Num(out.e), ns(&out.d)])
}

/// A behaviour: its first state, then operations with their expected outcome and the state they lead to.
pub struct Walk<'a> { pub start: Option<&'a State>, pub steps: Vec<(&'a Op, &'a Out, &'a State)> }
impl<'a> Walk<'a> { pub fn len(&self) -> usize { self.steps.len() } }
pub type Sim = Vec<(Op, Out, State)>;
pub enum Walks { Graph(Graph, Vec<Vec<u32>>), Sim(Vec<Sim>) }
impl Walks {
    pub fn len(&self) -> usize { match self { Walks::Graph(_, w) => w.len(), Walks::Sim(w) => w.len() } }
    pub fn get(&self, i: usize) -> Walk<'_> {
        match self {
            Walks::Graph(g, w) => Walk { start: w[i].first().map(|e| &g.states[g.edges[*e as usize].from as usize]),
                steps: w[i].iter().map(|e| { let e = &g.edges[*e as usize]; let (op, out) = &g.lbls[e.lbl as usize]; (op, out, &g.states[e.to as usize]) }).collect() },
            Walks::Sim(w) => Walk { start: w[i].first().map(|x| &x.2), steps: w[i].iter().skip(1).map(|(a, b, c)| (a, b, c)).collect() },
        }
    }
}

// ---- packing: TLC's output -> a compact file
struct Wr(Vec<u8>);
impl Wr {
    fn u(&mut self, x: u64) { let mut x = x; loop { let b = (x & 0x7f) as u8; x >>= 7; if x == 0 { self.0.push(b); break } else { self.0.push(b | 0x80) } } }
    fn i(&mut self, x: i64) { self.u(((x << 1) ^ (x >> 63)) as u64) }
    fn s(&mut self, s: &str) { self.u(s.len() as u64); self.0.extend_from_slice(s.as_bytes()) }
    fn state(&mut self, st: &State) { self.u(st.obs.len() as u64); for x in &st.obs { self.i(*x as i64) } self.u(st.text.len() as u64); for t in &st.text { self.s(t) } }
}
struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn u(&mut self) -> u64 { let mut x = 0; let mut k = 0; loop { let b = self.0[self.1]; self.1 += 1; x |= ((b & 0x7f) as u64) << k; k += 7; if b & 0x80 == 0 { return x } } }
    fn i(&mut self) -> i64 { let x = self.u(); ((x >> 1) as i64) ^ -((x & 1) as i64) }
    fn s(&mut self) -> String { let n = self.u() as usize; let t = std::str::from_utf8(&self.0[self.1..self.1 + n]).unwrap().to_string(); self.1 += n; t }
    fn state(&mut self) -> State { let n = self.u(); let obs = (0..n).map(|_| self.i() as i32).collect(); let n = self.u(); State { obs, text: (0..n).map(|_| self.s()).collect() } }
}
/// One behaviour in a few bytes (Miri is slow at parsing text).
pub struct Line { pub recipe: String, pub seed: u64, pub ns: usize, pub nt: usize, pub start: Option<State>, pub steps: Sim }
pub fn write_lines(ls: &[(String, u64, usize, usize, Walk)]) -> Vec<u8> {
    let mut w = Wr(vec![]);
    w.u(ls.len() as u64);
    for (rc, seed, ns, nt, k) in ls {
        w.s(rc); w.u(*seed); w.u(*ns as u64); w.u(*nt as u64);
        w.u(k.start.is_some() as u64);
        let bare = |s: &State| State { obs: s.obs.clone(), text: vec![] };
        if let Some(s) = k.start { w.state(&bare(s)) }
        w.u(k.steps.len() as u64);
        for (op, out, st) in &k.steps {
            w.s(&op.o); w.u(op.s as u64); w.u(op.x as u64); w.i(op.v); w.u(op.p.len() as u64); for x in &op.p { w.u(*x as u64) }
            w.i(out.e); w.u(out.r.len() as u64); for x in &out.r { w.i(*x) } w.u(out.d.len() as u64); for x in &out.d { w.i(*x) }
            w.state(&bare(st));
        }
    }
    w.0
}
pub fn read_lines(b: &[u8], f: &mut dyn FnMut(usize, Line) -> bool) {
    let mut r = Rd(b, 0);
    for k in 0..r.u() as usize {
        let (recipe, seed, ns, nt) = (r.s(), r.u(), r.u() as usize, r.u() as usize);
        let start = if r.u() == 1 { Some(r.state()) } else { None };
        let n = r.u();
        let steps = (0..n).map(|_| {
            let op = Op { o: r.s(), s: r.u() as usize, x: r.u() as usize, v: r.i(), p: { let n = r.u(); (0..n).map(|_| r.u() as usize).collect() } };
            let out = Out { e: r.i(), r: { let n = r.u(); (0..n).map(|_| r.i()).collect() }, d: { let n = r.u(); (0..n).map(|_| r.i()).collect() } };
            (op, out, r.state()) }).collect();
        if !f(k, Line { recipe, seed, ns, nt, start, steps }) { return }
    }
}
const MAGIC: &[u8] = b"VHG2";

/// Reads TLC's output from stdin; writes the graph to `out` and every other line to `log`.
pub fn pack(out: &str, log: &str) {
    use std::io::BufRead;
    let mut logf = std::fs::File::create(log).expect("log");
    let mut ids: HashMap<(i64, i64), u32> = HashMap::new();
    let mut states: Vec<((i64, i64), bool, State)> = vec![];
    let mut lbl_ids: HashMap<String, u32> = HashMap::new();
    let mut lbls: Vec<String> = vec![];
    let mut edges: Vec<((i64, i64), u32, (i64, i64))> = vec![];
    let mut sims = Wr(vec![]);
    let mut nsim = 0u64;
    let mut cases: Vec<String> = vec![];
    let text = |a: &[J], i: usize| -> Vec<String> { a.get(i).map(|t| t.arr().iter().map(|x| x.str().to_string()).collect()).unwrap_or_default() };
    for line in std::io::BufReader::with_capacity(1 << 20, std::io::stdin()).lines() {
        let line = match line { Ok(l) => l, Err(_) => continue };
        let j = match parse_tlc(&line) { Some(j) => j, None => { let _ = writeln!(logf, "{}", line); continue } };
        let a = j.arr();
        let key = |x: &J| { let k = x.nums(); (k[0], k[1]) };
        match a[0].str() {
            "S" => { let k = key(&a[1]); let first = a[2].num() == 1;
                if let Some(i) = ids.get(&k) { if first { states[*i as usize].1 = true } }
                else { ids.insert(k, states.len() as u32); states.push((k, first, State { obs: obs::encode(&a[3]), text: text(a, 4) })) } }
            "E" => { let s = a[3].to_string();
                let n = lbls.len() as u32;
                let l = *lbl_ids.entry(s.clone()).or_insert(n);
                if l == n { lbls.push(s) }
                edges.push((key(&a[1]), l, key(&a[2]))) }
            "T" => {
                nsim += 1;
                sims.u(a[1].num() as u64);
                sims.s(&a[2].to_string());
                sims.state(&State { obs: obs::encode(&a[3]), text: text(a, 4) }) }
            "C" => cases.push(j.to_string()),
            _ => {}
        }
    }
    if !cases.is_empty() { // cases, not a graph: kept as text
        cases.sort();
        let n = cases.len();
        std::fs::write(out, cases.join("\n") + "\n").expect("write");
        let _ = writeln!(logf, "PACKED states={} edges=0 labels=0 steps=0", n);
        return
    }
    // an order that does not depend on TLC's scheduling
    let mut order: Vec<u32> = (0..states.len() as u32).collect();
    order.sort_by_key(|i| states[*i as usize].0);
    let mut lo: Vec<u32> = (0..lbls.len() as u32).collect();
    lo.sort_by(|a, b| lbls[*a as usize].cmp(&lbls[*b as usize]));
    let mut lrank = vec![0u32; lbls.len()];
    for (r, i) in lo.iter().enumerate() { lrank[*i as usize] = r as u32 }
    let rank: HashMap<(i64, i64), u32> = order.iter().enumerate().map(|(r, i)| (states[*i as usize].0, r as u32)).collect();
    let mut es: Vec<(u32, u32, u32)> = vec![];
    for (a, l, b) in edges { if let (Some(x), Some(y)) = (rank.get(&a), rank.get(&b)) { es.push((*x, lrank[l as usize], *y)) } }
    es.sort();
    es.dedup();
    let mut w = Wr(MAGIC.to_vec());
    w.u(states.len() as u64);
    for i in &order { let s = &states[*i as usize]; w.u(s.1 as u64); w.state(&s.2) }
    w.u(lbls.len() as u64);
    for i in &lo { w.s(&lbls[*i as usize]) }
    w.u(es.len() as u64);
    let mut prev = 0;
    for (a, l, b) in &es { w.u((*a - prev) as u64); prev = *a; w.u(*l as u64); w.u(*b as u64) }
    w.u(nsim);
    w.0.extend_from_slice(&sims.0);
    std::fs::write(out, &w.0).expect("write");
    let _ = writeln!(logf, "PACKED states={} edges={} labels={} steps={}", states.len(), es.len(), lbls.len(), nsim);
}

pub fn load(path: &str) -> (Graph, Vec<Sim>) {
    let mut buf = vec![];
    std::fs::File::open(path).and_then(|mut f| f.read_to_end(&mut buf)).unwrap_or_else(|e| { eprintln!("HARNESS: {}: {}", path, e); std::process::exit(3) });
    if !buf.starts_with(MAGIC) { eprintln!("HARNESS: {} is no graph", path); std::process::exit(3) }
    let mut r = Rd(&buf, MAGIC.len());
    let mut g = Graph::default();
    let n = r.u();
    for i in 0..n { if r.u() == 1 { g.init.push(i as u32) } let s = r.state(); g.states.push(s) }
    let n = r.u();
    for _ in 0..n { let s = r.s(); g.lbls.push(label(&parse(&s).unwrap())) }
    let n = r.u();
    let mut prev = 0;
    for _ in 0..n { prev += r.u() as u32; let l = r.u() as u32; let to = r.u() as u32; g.edges.push(Edge { from: prev, to, lbl: l }) }
    let n = r.u();
    let mut sims: Vec<Sim> = vec![];
    for _ in 0..n { let lv = r.u(); let l = r.s(); let st = r.state(); let (a, b) = label(&parse(&l).unwrap());
        if lv == 1 { sims.push(vec![]) } if let Some(x) = sims.last_mut() { x.push((a, b, st)) } }
    g.out = vec![vec![]; g.states.len()];
    g.pred = vec![vec![]; g.states.len()];
    for (i, e) in g.edges.iter().enumerate() { g.out[e.from as usize].push(i as u32) }
    // breadth first levels from the initial states
    let mut lev = vec![i32::MAX; g.states.len()];
    let mut q = std::collections::VecDeque::new();
    for i in &g.init { lev[*i as usize] = 0; q.push_back(*i) }
    while let Some(s) = q.pop_front() { for e in &g.out[s as usize] { let t = g.edges[*e as usize].to; if lev[t as usize] == i32::MAX { lev[t as usize] = lev[s as usize] + 1; q.push_back(t) } } }
    for (i, e) in g.edges.iter().enumerate() { if lev[e.from as usize] != i32::MAX && lev[e.to as usize] == lev[e.from as usize] + 1 { g.pred[e.to as usize].push(i as u32) } }
    g.level = lev;
    (g, sims)
}

/// Walks from an initial state that together take every edge (`only`: every edge whose operation it accepts);
/// each goes to a state with untaken edges by a random shortest path, then takes untaken edges as long as it can.
pub fn cover(g: &Graph, maxlen: usize, max_steps: usize, seed: u64, only: &dyn Fn(&str) -> bool) -> (Vec<Vec<u32>>, usize) {
    let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut todo: Vec<Vec<u32>> = g.out.iter().map(|v| {
        let mut v: Vec<u32> = v.iter().cloned().filter(|e| only(&g.lbls[g.edges[*e as usize].lbl as usize].0.o)).collect();
        for i in (1..v.len()).rev() { let j = (rnd(&mut rng) % (i as u64 + 1)) as usize; v.swap(i, j) }
        v }).collect();
    let mut taken = vec![false; g.edges.len()];
    let mut walks = vec![];
    let mut covered = 0;
    let mut steps = 0;
    let mut order: Vec<u32> = (0..g.states.len() as u32).filter(|s| g.level[*s as usize] != i32::MAX).collect();
    for i in (1..order.len()).rev() { let j = (rnd(&mut rng) % (i as u64 + 1)) as usize; order.swap(i, j) }
    // deep states first: their prefixes cover the shallow edges
    order.sort_by_key(|s| -g.level[*s as usize]);
    'out: for s in order {
        loop {
            while let Some(e) = todo[s as usize].last() { if taken[*e as usize] { todo[s as usize].pop(); } else { break } }
            if todo[s as usize].is_empty() { break }
            let mut w: Vec<u32> = vec![];
            let mut c = s;
            while g.level[c as usize] > 0 { let p = &g.pred[c as usize]; let e = p[(rnd(&mut rng) % p.len() as u64) as usize]; w.push(e); c = g.edges[e as usize].from }
            w.reverse();
            for e in &w { if !taken[*e as usize] { taken[*e as usize] = true; covered += 1 } }
            c = s;
            let maxlen = maxlen.max(w.len() + 1);
            while w.len() < maxlen {
                let e = match todo[c as usize].pop() { Some(e) => e, None => break };
                if taken[e as usize] { continue }
                taken[e as usize] = true; covered += 1;
                w.push(e);
                c = g.edges[e as usize].to;
            }
            steps += w.len();
            walks.push(w);
            if steps >= max_steps { break 'out }
        }
    }
    // shuffle so that early stops still see a mixture
    for i in (1..walks.len()).rev() { let j = (rnd(&mut rng) % (i as u64 + 1)) as usize; walks.swap(i, j) }
    (walks, covered)
}
