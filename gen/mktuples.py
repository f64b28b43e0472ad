#!/usr/bin/env python3
"""Writes harness/src/tuples_gen.rs: one tuple expression per shape of Tuple.tla (AllTrees(6,32), AllForests(6,32)) and way
of writing leaves.  Only the tuples are generated here; what they must build and report comes from the specification."""
import os, functools
@functools.lru_cache(None)
def forests(n):
    if n == 0: return [()]
    return [(t,) + f for k in range(1, n + 1) for t in forests(k - 1) for f in forests(n - k)]
flat = lambda n: ((),) * n
chain = lambda n: () if n == 0 else (chain(n - 1),)
comb = lambda n: () if n == 0 else ((), comb(n - 1))
def all_trees(n, m):
    s = {t for k in range(1, n + 1) for t in forests(k - 1)}
    s |= {flat(k) for k in range(m + 1)} | {((), flat(k), ((),)) for k in range(m + 1)} | {chain(k) for k in range(8)} | {comb(k) for k in range(7)}
    return s | {(comb(k), (), comb(2)) for k in range(5)}
def all_forests(n, m):
    s = {f for k in range(n + 1) for f in forests(k)} | {flat(k) for k in range(m + 1)}
    return s | {(flat(k), (), flat(k)) for k in (0, 1, 2, 8, 16, 31, 32)} | {(comb(k), (), comb(2)) for k in range(5)}
def key(s): return "[" + ",".join(key(c) for c in s) + "]"
def size(t): return 1 + sum(map(size, t))
class Writer:
    def __init__(self, mode): self.mode, self.n = mode, 0
    def tree(self, t):
        if t: return "(v()," + ",".join(self.tree(c) for c in t) + ")"
        self.n += 1
        return "v()" if self.mode == 0 or (self.mode == 2 and self.n % 2 == 0) else "(v(),)"
    def forest(self, f): return "(" + "".join(self.tree(c) + "," for c in f) + ")"
def main():
    o = ["// Written by gen/mktuples.py.", "use super::{forest, tree, Job};", "pub fn run(kind: &str, shape: &str, mode: usize, j: &mut Job) -> bool {", "    match (kind, shape, mode) {"]
    for kind, shapes, f in (("t", all_trees(6, 32), "tree"), ("f", all_forests(6, 32), "forest")):
        for s in sorted(shapes, key=lambda s: (sum(map(size, s)), key(s))):
            seen = set()
            big = sum(map(size, s)) > 6
            for mode in ((2,) if big and sum(map(size, s)) > 20 else (0, 1, 2)):
                e = getattr(Writer(mode), f)(s)
                if e in seen: continue
                seen.add(e)
                o.append('        ("%s", "%s", %d) => %s(|%s| %s, j),' % (kind, key(s), mode, f, "v" if "v()" in e else "_v", e))
    o += ["        _ => return false,", "    }", "    true", "}", ""]
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src", "tuples_gen.rs")
    open(path, "w").write("\n".join(o))
if __name__ == "__main__": main()
