#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ model checked with TLC; every transition of its state graph replayed on the real code, and logs of random programs on the real code checked against it by TLC"
CASES = "TLA+ (TLC) computes the required result for every case in bounds; each is compared with the real code"
RND = " The thorough tier adds deeper bounds and long random behaviours of the specification (TLC -simulate, with every alternative step along them)."
NOTE = {
 "P11": (CASES + "; plus replay of behaviours that start from tuples", "All tree tuples up to 6 nodes, forest tuples up to 6, every arity 0..32, combs and chains, leaves written three ways; the write-offset algorithm is itself model checked against breadth first order. Larger nestings rest on the generality of the macros."),
 "P12": (CASES, "All tuple shapes as in P11, every call and size compared. Larger nestings rest on the generality of the macros."),
 "P14": (CASES + "; plus comparisons replayed along edit histories", "All pairs of labelled trees/forests of up to 3 nodes over {1,2,incomparable} and up to 4 over {1,2}, each in several storages and node positions; comparisons of structures reached by edits."),
 "P24": (TECH + ", run in scattered, contiguous and mixed storage", "Only differences between storages count; the same bounds as the other properties' families."),
 "P26": (TECH + "; on real threads, taking turns as the behaviour says, natively and (a sample) under Miri's race detector; the counting protocol itself model checked (BlockCount.tla)", "Exhaustive within the bounds of the mt families (2 threads, 4 nodes, 6-7 operations) for results, drops and memory; races are looked for by Miri in a random sample of those behaviours. Stacked borrows are not checked (the crate's pinned references do not keep them)."),
 "P06": (TECH + "; a sample also under Miri", "Exhaustive within the bounds of its families (vt/families.py): every transition of the bounded specification is executed on the real code with an item ledger and a poisoning, quarantining allocator; a random sample of behaviours also under Miri (without stacked borrows)." + RND),
 "P27": (TECH + ", with a panic injected at the item the behaviour names; a sample also under Miri", "Exhaustive within the bounds of the ucode families: every operation that calls user code, every item as the one that panics, every shape up to 4 nodes. Whether copies made before the panic are dropped or leaked is left open."),
 "P29": (TECH + ", with the item's own code using a handle at the item the behaviour names; a sample also under Miri", "Exhaustive within the bounds of the reent families: every call of user code, every item that strikes, every handle used, every shape in their bounds, in all storages. Left open: whether a weak handle to a node upgrades while that node's children are being dropped."),
 "P28": ("Explicit TLA+ specification (Rebuild.tla) checked with TLC, every input computed by it run through the real code", "Exhaustive for all sequences of up to 4 visits with small sizes and for everything one change away from a traversal of up to 5 nodes. Items announced before a refusal may leak (not checked)."),
 "P25": (TECH + ", run in the default and the no_std build", "Only differences between the builds count (or a no_std build that does not compile); the same bounds as the other properties' families."),
}
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    t, n = NOTE.get(p["id"], (TECH, "Exhaustive within the bounds of its families (vt/families.py): every transition of the bounded specification is executed on the real code, in scattered, contiguous and mixed storage, with all observations, drops and memory compared after every step. Beyond the bounds: not proved." + RND))
    checks.append(dict(property=p["id"], quick_cmd="bin/check " + p["id"], thorough_cmd="bin/check " + p["id"] + " --thorough", technique=t, level="model_checking", level_note=n))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[], notes="Specification: spec/*.tla (TLA+). Known findings and repairs: known_findings.txt. See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
