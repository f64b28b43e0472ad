------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* The observable behaviour of the `trees` crate, as one state machine.    *)
(*                                                                         *)
(* A program using the crate owns a number of SLOTS.  A slot holds one of  *)
(* the crate's values: a Tree, a Forest, a by-value iterator, a shared     *)
(* handle (RcNode), a weak handle, an iterator over shared children, or a  *)
(* dynamic borrow of a node's data.  Nodes live in an ARENA of identities; *)
(* kids[i] is the ordered child list of node i, val[i] its data (0: the    *)
(* identity is not in use).  Every public operation of the crate is one    *)
(* action; `last` records which operation was taken, with its arguments,   *)
(* its result, whether it panicked, and which data items it dropped.       *)
(*                                                                         *)
(* A node lives iff some slot owns it or an ancestor of it: `Commit`       *)
(* computes that for every action, so ownership and release of data is     *)
(* specified once and for all.                                             *)
(*                                                                         *)
(* The specification does not mention how nodes are stored (one by one or  *)
(* contiguously): that must not show (property P24).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt, FiniteSetsExt, Randomization

CONSTANTS MaxId,     \* number of node identities
          NS,        \* number of slots
          Ops,       \* names of the operations enabled in this configuration
          MaxDepth,  \* bound on the depth of trees (0: none)
          Starts,    \* the situations to start from: each a sequence of <<kind, <<trees>>>>, one per slot
          Depth,     \* bound on the number of operations (0: none)
          Few        \* 0: every choice of a node; otherwise (random behaviours of large structures) that many, picked at random

VARIABLES kids, val, slot, mit, last

stv  == <<kids, val, slot, mit>>
vars == <<kids, val, slot, mit, last>>

Ids   == 1..MaxId
Slots == 1..NS

Sl(k, r)  == [k |-> k, r |-> r, n |-> 0, p |-> <<>>]
None      == Sl("none", <<>>)
TreeS(i)  == Sl("tree", <<i>>)
ForestS(q)== Sl("forest", q)
IntoS(q)  == Sl("into", q)
RcS(i)    == Sl("rc", <<i>>)
WeakS(i)  == Sl("weak", <<i>>)
WeakGone  == Sl("weak", <<>>)
WalkKinds == {"walkt", "walkf"}        \* a cursor over a tree / a forest; n and p: see Cursors below
NoMit     == [s |-> 0, l |-> 0, rem |-> <<>>, got |-> <<>>]
Lbl(o,s,p,x,v) == [o |-> o, s |-> s, p |-> p, x |-> x, v |-> v, r |-> <<>>, e |-> 0, d |-> <<>>]

Owners == {"tree", "forest", "into", "rc", "iterrc", "ref", "mut", "walkt", "walkf"}
Pos(q, i) == CHOOSE j \in DOMAIN q : q[j] = i
At(q, j) == IF j \in DOMAIN q THEN <<q[j]>> ELSE <<>>
Without(q, i) == SelectSeq(q, LAMBDA a : a # i)

---------------------------------------------------------------------------
(* Structure *)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
RECURSIVE PreSeq(_, _)
PreSeq(K, i) == <<i>> \o Cat([j \in DOMAIN K[i] |-> PreSeq(K, K[i][j])])
PreForest(K, q) == Cat([j \in DOMAIN q |-> PreSeq(K, q[j])])
Desc(K, i) == Range(PreSeq(K, i))            \* node i and all below it
DescSeq(K, q) == Range(PreForest(K, q))
Count(K, i) == Len(PreSeq(K, i))
ParentOf(K, i) == {p \in Ids : i \in Range(K[p])}     \* empty or a singleton
RECURSIVE Height(_, _)
Height(K, i) == 1 + (IF K[i] = <<>> THEN 0 ELSE Max({Height(K, c) : c \in Range(K[i])}))

RECURSIVE PathsBelow(_, _, _)     \* all <<path, id>> from node i at path p
PathsBelow(K, i, p) == <<<<p, i>>>> \o Cat([j \in DOMAIN K[i] |-> PathsBelow(K, K[i][j], Append(p, j))])
NodesIn(s) ==
    CASE slot[s].k = "tree"   -> Range(PathsBelow(kids, slot[s].r[1], <<>>))
      [] slot[s].k = "forest" -> Range(Cat([j \in DOMAIN slot[s].r |-> PathsBelow(kids, slot[s].r[j], <<j>>)]))
      [] slot[s].k = "rc"     -> {<<<<>>, slot[s].r[1]>>}
      [] OTHER -> {}
(* the places that have a child list: nodes, and (id 0) the forest itself *)
ListsOf(s, nodes) == nodes \cup (IF slot[s].k = "forest" THEN {<<<<>>, 0>>} ELSE {})
ListOf(s, i) == IF i = 0 THEN slot[s].r ELSE kids[i]

RECURSIVE Level(_, _)
Level(K, q) == IF q = <<>> THEN <<>> ELSE q \o Level(K, Cat([j \in DOMAIN q |-> K[q[j]]]))
Bfs(K, q) == Level(K, q)          \* breadth first order of the trees rooted at q

FreeIds   == {i \in Ids : val[i] = 0}
FreeSlots == {s \in Slots : slot[s].k = "none"}
GuardMut(i) == \E s \in Slots : slot[s].k = "mut" /\ slot[s].r = <<i>>
GuardAny(i) == \E s \in Slots : slot[s].k \in {"ref", "mut"} /\ slot[s].r = <<i>>
Busy(s) == mit.s = s              \* an iter_mut over a list of slot s is running
On(o) == o \in Ops

---------------------------------------------------------------------------
(* Commit: the common tail of every action.  K, V, S are the structure,    *)
(* data and slots after the operation proper; what is then no longer owned *)
(* is dropped, and weak handles to it are cleared.                         *)
LiveIn(K, S) == Range(Cat([s \in Slots |-> IF S[s].k \in Owners THEN PreForest(K, S[s].r) ELSE <<>>]))

Vals(V, I) == LET q == SetToSortSeq(I, LAMBDA a, b : V[a] < V[b] \/ (V[a] = V[b] /\ a < b))
              IN  [j \in DOMAIN q |-> V[q[j]]]
Commit(KK, VV, SS, M, lbl) ==
    \E K \in {KK}, V \in {VV}, S \in {SS} : \E live \in {LiveIn(K, S)} :     \* (evaluated once)
       LET dead == {i \in Ids : V[i] # 0} \ live
       IN /\ kids' = [i \in Ids |-> IF i \in live THEN K[i] ELSE <<>>]
          /\ val'  = [i \in Ids |-> IF i \in live THEN V[i] ELSE 0]
          /\ slot' = [s \in Slots |-> IF S[s].k = "weak" /\ S[s].r # <<>> /\ S[s].r[1] \notin live
                                      THEN [S[s] EXCEPT !.r = <<>>] ELSE S[s]]
          /\ mit'  = M
          /\ last' = [lbl EXCEPT !.d = Vals(V, dead)]
(* an operation that panics: it consumed the value in slot x (0: nothing), nothing else changed *)
Panics(x, lbl) == Commit(kids, val, IF x = 0 THEN slot ELSE [slot EXCEPT ![x] = None], mit, [lbl EXCEPT !.e = 1])
Res(lbl, r) == [lbl EXCEPT !.r = r]

DepthOK == MaxDepth = 0 \/ \A i \in Ids : val[i] # 0 => Height(kids, i) <= MaxDepth

---------------------------------------------------------------------------
(* Construction and destruction *)
New == /\ On("new") /\ FreeIds # {} /\ FreeSlots # {}
       /\ LET i == Min(FreeIds)  x == Min(FreeSlots)
          IN  Commit(kids, [val EXCEPT ![i] = i], [slot EXCEPT ![x] = TreeS(i)], mit, Lbl("new", 0, <<>>, x, i))
NewForest == /\ On("newf") /\ FreeSlots # {}
             /\ LET x == Min(FreeSlots)
                IN  Commit(kids, val, [slot EXCEPT ![x] = ForestS(<<>>)], mit, Lbl("newf", 0, <<>>, x, 0))
Drop(s) == /\ On("drop") /\ slot[s].k # "none" /\ ~Busy(s)
           /\ Commit(kids, val, [slot EXCEPT ![s] = None], mit, Lbl("drop", s, <<>>, 0, 0))

---------------------------------------------------------------------------
(* Child-list edits.  t = <<path, id>> addresses the list, in slot s.      *)
SetList(s, i, q) == IF i = 0 THEN <<kids, [slot EXCEPT ![s].r = q]>> ELSE <<[kids EXCEPT ![i] = q], slot>>
IsRc(s) == slot[s].k = "rc"
MutConflict(s, i) == IsRc(s) /\ GuardAny(i)
Push(s, t, x, back) ==
    LET o == IF back THEN "pushb" ELSE "pushf"
        lbl == Lbl(o, s, t[1], x, 0)
        c == slot[x].r[1]
        u == SetList(s, t[2], IF back THEN ListOf(s, t[2]) \o <<c>> ELSE <<c>> \o ListOf(s, t[2]))
    IN /\ On(o) /\ s # x /\ slot[x].k = "tree" /\ ~Busy(s) /\ ~Busy(x)
       /\ IF MutConflict(s, t[2]) THEN Panics(x, lbl)
          ELSE Commit(u[1], val, [u[2] EXCEPT ![x] = None], mit, lbl)
Pop(s, t, back) ==
    LET o == IF back THEN "popb" ELSE "popf"
        q == ListOf(s, t[2])
        x == Min(FreeSlots)
        lbl == Lbl(o, s, t[1], x, 0)
        c == IF back THEN Last(q) ELSE Head(q)
        u == SetList(s, t[2], IF back THEN Front(q) ELSE Tail(q))
    IN /\ On(o) /\ FreeSlots # {} /\ ~Busy(s)
       /\ IF MutConflict(s, t[2]) THEN Panics(0, lbl)
          ELSE IF q = <<>> THEN Commit(kids, val, slot, mit, Res(lbl, <<0>>))
          ELSE Commit(u[1], val, [u[2] EXCEPT ![x] = IF IsRc(s) THEN RcS(c) ELSE TreeS(c)], mit, Res(lbl, <<1>>))
Join(s, t, x, back) ==
    LET o == IF back THEN "app" ELSE "prep"
        lbl == Lbl(o, s, t[1], x, 0)
        u == SetList(s, t[2], IF back THEN ListOf(s, t[2]) \o slot[x].r ELSE slot[x].r \o ListOf(s, t[2]))
    IN /\ On(o) /\ s # x /\ slot[x].k = "forest" /\ ~Busy(s) /\ ~Busy(x)
       /\ IF MutConflict(s, t[2]) THEN Panics(x, lbl)
          ELSE Commit(u[1], val, [u[2] EXCEPT ![x] = None], mit, lbl)
(* Extend on a shared node: consumes the trees of a forest one by one *)
Extend(s, x) ==
    LET i == slot[s].r[1]  lbl == Lbl("ext", s, <<>>, x, 0)
    IN /\ On("ext") /\ IsRc(s) /\ s # x /\ slot[x].k = "forest"
       /\ GuardAny(i) => slot[x].r # <<>>          \* whether extending by nothing needs the node is left open
       /\ IF GuardAny(i) THEN Panics(x, lbl)
          ELSE Commit([kids EXCEPT ![i] = @ \o slot[x].r], val, [slot EXCEPT ![x] = None], mit, lbl)

---------------------------------------------------------------------------
(* Sibling edits.  Where(s, i): the list that contains node i: <<owner id or 0>>, <<>> if none. *)
Where(s, i) == IF ParentOf(kids, i) # {} THEN <<CHOOSE p \in ParentOf(kids, i) : TRUE>>
               ELSE IF slot[s].k = "forest" THEN <<0>> ELSE <<>>
InsAt(q, j, c) == SubSeq(q, 1, j-1) \o <<c>> \o SubSeq(q, j, Len(q))
InsSib(s, t, x, next) ==
    LET o == IF next THEN "insn" ELSE "insp"
        lbl == Lbl(o, s, t[1], x, 0)
        w == Where(s, t[2])
        q == ListOf(s, w[1])
        j == Pos(q, t[2])
        u == SetList(s, w[1], InsAt(q, IF next THEN j+1 ELSE j, slot[x].r[1]))
    IN /\ On(o) /\ s # x /\ slot[x].k = "tree" /\ ~Busy(s) /\ ~Busy(x)
       /\ IF MutConflict(s, t[2]) \/ w = <<>> THEN Panics(x, lbl)
          ELSE Commit(u[1], val, [u[2] EXCEPT ![x] = None], mit, lbl)
Detach(s, t) ==
    LET w == Where(s, t[2])
        x == Min(FreeSlots)
        lbl == Lbl("det", s, t[1], x, 0)
        u == SetList(s, w[1], Without(ListOf(s, w[1]), t[2]))
    IN /\ On("det") /\ FreeSlots # {} /\ ~Busy(s)
       /\ IF MutConflict(s, t[2]) \/ w = <<>> THEN Panics(0, lbl)
          ELSE Commit(u[1], val, IF IsRc(s) THEN u[2] ELSE [u[2] EXCEPT ![x] = TreeS(t[2])], mit, lbl)

---------------------------------------------------------------------------
(* Abandoning a root, by-value iteration *)
Abandon(s) ==
    LET x == Min(FreeSlots)  i == slot[s].r[1]
    IN /\ On("aband") /\ slot[s].k = "tree" /\ FreeSlots # {} /\ ~Busy(s)
       /\ Commit([kids EXCEPT ![i] = <<>>], val, [slot EXCEPT ![x] = ForestS(kids[i])], mit, Lbl("aband", s, <<>>, x, 0))
IntoIter(s) ==
    /\ On("into") /\ slot[s].k \in {"tree", "forest"} /\ ~Busy(s)
    /\ Commit(kids, val, [slot EXCEPT ![s] = IntoS(slot[s].r)], mit, Lbl("into", s, <<>>, 0, 0))
IntoNext(s) ==
    LET x == Min(FreeSlots)  lbl == Lbl("inext", s, <<>>, x, 0)
    IN /\ On("inext") /\ slot[s].k = "into" /\ FreeSlots # {}
       /\ IF slot[s].r = <<>> THEN Commit(kids, val, slot, mit, Res(lbl, <<0>>))
          ELSE Commit(kids, val, [slot EXCEPT ![s].r = Tail(@), ![x] = TreeS(Head(slot[s].r))], mit, Res(lbl, <<1>>))

---------------------------------------------------------------------------
(* Copies.  Copying the trees rooted at q uses the smallest free ids, in breadth first order. *)
FreeSeq(n) == LET q == SetToSortSeq(FreeIds, <) IN SubSeq(q, 1, n)
CopyOK(q) == Cardinality(DescSeq(kids, q)) <= Cardinality(FreeIds)
(* to: the copy of each node, from: what each new node is a copy of (0: nothing); off free ids are passed over *)
CopyAt(q, off) ==
    LET b == Bfs(kids, q)  f == FreeSeq(off + Len(b))  z == [i \in Ids |-> 0]
    IN FoldLeft(LAMBDA a, k : [to |-> [a.to EXCEPT ![b[k]] = f[off + k]], from |-> [a.from EXCEPT ![f[off + k]] = b[k]]],
                [to |-> z, from |-> z], [k \in DOMAIN b |-> k])
CopyMap(q) == CopyAt(q, 0)
CopyKids(K, C) == [i \in Ids |-> IF C.from[i] = 0 THEN K[i] ELSE [a \in DOMAIN kids[C.from[i]] |-> C.to[kids[C.from[i]][a]]]]
CopyVal(V, C, F(_)) == [i \in Ids |-> IF C.from[i] = 0 THEN V[i] ELSE F(val[C.from[i]])]
Same(v) == v
Shift(v) == IF v >= 2000 THEN v - 2000 ELSE v + 2000
(* o: "clone" (deep_clone of a node / Tree::clone), "copyb" (Tree::from(bfs().map(..))) *)
CopyTree(s, t, o) ==
    LET x == Min(FreeSlots)  q == <<t[2]>>  lbl == Lbl(o, s, t[1], x, 0)
    IN /\ On(o) /\ FreeSlots # {} /\ t[2] # 0 /\ CopyOK(q) /\ ~Busy(s)
       /\ o = "copyb" /\ IsRc(s) => ~\E i \in Desc(kids, t[2]) : GuardMut(i)     \* (by an unsafe fn: the caller vouches)
       /\ IF IsRc(s) /\ \E i \in Desc(kids, t[2]) : GuardMut(i) THEN Panics(0, lbl)    \* all of it is read
          ELSE \E C \in {CopyMap(q)} :
               Commit(CopyKids(kids, C), IF o = "copyb" THEN CopyVal(val, C, Shift) ELSE CopyVal(val, C, Same),
                      [slot EXCEPT ![x] = TreeS(C.to[t[2]])], mit, lbl)
(* "clonef": deep_clone_forest of a node / Forest::clone; "copybf": Forest::from(bfs_children / bfs) *)
CopyForest(s, t, o) ==
    LET x == Min(FreeSlots)  q == ListOf(s, t[2])
    IN /\ On(o) /\ FreeSlots # {} /\ CopyOK(q) /\ ~Busy(s) /\ ~IsRc(s)
       /\ \E C \in {CopyMap(q)} :
          Commit(CopyKids(kids, C), IF o = "copybf" THEN CopyVal(val, C, Shift) ELSE CopyVal(val, C, Same),
                 [slot EXCEPT ![x] = ForestS([j \in DOMAIN q |-> C.to[q[j]]])], mit, Lbl(o, s, t[1], x, 0))
(* Tree::from(t.into_bfs()), Forest::from(f.into_bfs()): the same structure in new storage *)
Rebuild(s) == /\ On("rebuild") /\ slot[s].k \in {"tree", "forest"} /\ ~Busy(s)
              /\ LET D == UNION {Desc(kids, i) : i \in Range(slot[s].r)}     \* new nodes take over: weak handles see the old ones go
                 IN Commit(kids, val, [q \in Slots |-> IF slot[q].k = "weak" /\ Range(slot[q].r) \cap D # {} THEN WeakGone ELSE slot[q]],
                           mit, Lbl("rebuild", s, <<>>, 0, 0))
(* consuming breadth first traversal, stopped after v visits; the data items visited are dropped after
   the rest of the traversal *)
IntoBfs(s, v) ==
    LET b == Bfs(kids, slot[s].r)
    IN /\ On("intobfs") /\ slot[s].k \in {"tree", "forest"} /\ ~Busy(s)
       /\ v <= Len(b) + 1
       /\ Commit(kids, val, [slot EXCEPT ![s] = None], mit,
                 Res(Lbl("intobfs", s, <<>>, 0, v),
                     Cat([j \in 1..(IF v <= Len(b) THEN v ELSE Len(b)) |->
                         <<val[b[j]], Len(kids[b[j]]), Count(kids, b[j]) - 1>>])))

---------------------------------------------------------------------------
(* Writes: every write flips the data of the node it addresses.            *)
Flip(v) == IF v % 2000 >= 1000 THEN v - 1000 ELSE v + 1000
WriteTo(I, lbl) == Commit(kids, [i \in Ids |-> IF i \in I THEN Flip(val[i]) ELSE val[i]], slot, mit, lbl)
Write(s, t, v) ==     \* v: which accessor leads to the node (the executor's choice is free)
    LET lbl == Lbl("w", s, t[1], 0, v)
    IN /\ On("w") /\ t[2] # 0 /\ ~Busy(s)
       /\ IF MutConflict(s, t[2]) THEN Panics(0, lbl) ELSE WriteTo({t[2]}, lbl)
(* reading breadth first traversal: of the node (v: API variant; "bfs") or of its children ("bfsc") *)
ReadBfs(s, t, o) ==
    LET q == IF o = "bfs" /\ t[2] # 0 THEN <<t[2]>> ELSE ListOf(s, t[2])
        b == Bfs(kids, q)
        lbl == Lbl(o, s, t[1], 0, 0)
        (* what the traversal says of itself: how many trees it has at the top, how many nodes below the root *)
        size == <<IF t[2] = 0 \/ o = "bfsc" THEN Len(q) ELSE 1, IF t[2] = 0 THEN Len(b) ELSE Count(kids, t[2]) - 1>>
    IN /\ On(o) /\ ~Busy(s) /\ ((o = "bfsc") => t[2] # 0)
       /\ IsRc(s) => ~\E i \in Desc(kids, t[2]) : GuardMut(i)
       /\ Commit(kids, val, slot, mit, Res(lbl, size \o Cat([j \in DOMAIN b |->
             <<val[b[j]], Len(kids[b[j]]), Count(kids, b[j]) - 1>>])))
(* comparison of two structures: data first, then the children lexicographically (-1, 0, 1) *)
RECURSIVE CmpT(_, _), CmpS(_, _)
CmpT(i, j) == IF val[i] < val[j] THEN -1 ELSE IF val[i] > val[j] THEN 1 ELSE CmpS(kids[i], kids[j])
CmpS(p, q) == IF p = <<>> THEN (IF q = <<>> THEN 0 ELSE -1) ELSE IF q = <<>> THEN 1
              ELSE LET c == CmpT(p[1], q[1]) IN IF c # 0 THEN c ELSE CmpS(Tail(p), Tail(q))
Compare(s, t, x, u) ==
    /\ On("cmp") /\ ~Busy(s) /\ ~Busy(x)
    /\ (t[2] = 0) = (u[2] = 0) /\ IsRc(s) = IsRc(x)
    /\ \A i \in (IF t[2] = 0 THEN {} ELSE Desc(kids, t[2]) \cup Desc(kids, u[2])) : ~GuardMut(i)
    /\ Commit(kids, val, slot, mit,
              Res(Lbl("cmp", s, t[1] \o <<0>> \o u[1], x, 0),
                  <<IF t[2] = 0 THEN CmpS(slot[s].r, slot[x].r) ELSE CmpT(t[2], u[2])>>))

WriteBfs(s, t, o, v) ==   \* visit v (0: every visit) of bfs_mut ("wb") or bfs_children_mut ("wbc")
    LET b == IF o = "wb" /\ t[2] # 0 THEN Bfs(kids, <<t[2]>>) ELSE Bfs(kids, ListOf(s, t[2]))
    IN /\ On(o) /\ ~Busy(s) /\ ~IsRc(s) /\ v \in 0..Len(b)
       /\ (o = "wbc") => t[2] # 0
       /\ WriteTo(IF v = 0 THEN Range(b) ELSE {b[v]}, Lbl(o, s, t[1], 0, v))
WriteIter(s, t, v) ==     \* item v (0: every item) of iter_mut
    LET q == ListOf(s, t[2])
    IN /\ On("wi") /\ ~Busy(s) /\ ~IsRc(s) /\ v \in 0..Len(q)
       /\ WriteTo(IF v = 0 THEN Range(q) ELSE {q[v]}, Lbl("wi", s, t[1], 0, v))

---------------------------------------------------------------------------
(* Operators.  a / b, a - b, -a with owned (0) or borrowed (1) operands.    *)
(* v = 2*borrow_left + borrow_right; operand slots s, x; y = result slot.   *)
OpTypes(o) == {<<"tree","tree">>} \cup (IF o = "div" THEN {<<"tree","forest">>}
                                        ELSE {<<"forest","tree">>, <<"forest","forest">>})
Oper(o, s, x, v) ==
    LET bl == v \div 2  br == v % 2
        copyq == (IF bl = 1 THEN slot[s].r ELSE <<>>) \o (IF br = 1 THEN slot[x].r ELSE <<>>)
        S0 == [q \in Slots |-> IF (q = s /\ bl = 0) \/ (q = x /\ br = 0) THEN None ELSE slot[q]]
        y == Min({q \in Slots : S0[q].k = "none"})
        lbl == Lbl(o, s, <<y>>, x, v)
    IN /\ On(o) /\ s # x /\ <<slot[s].k, slot[x].k>> \in OpTypes(o)
       /\ CopyOK(copyq) /\ (\E q \in Slots : S0[q].k = "none")
       /\ \E C \in {CopyMap(copyq)} :
          LET K == CopyKids(kids, C)
              V == CopyVal(val, C, Same)
              L == IF bl = 1 THEN [j \in DOMAIN slot[s].r |-> C.to[slot[s].r[j]]] ELSE slot[s].r
              R == IF br = 1 THEN [j \in DOMAIN slot[x].r |-> C.to[slot[x].r[j]]] ELSE slot[x].r
          IN IF o = "div" THEN Commit([K EXCEPT ![L[1]] = @ \o R], V, [S0 EXCEPT ![y] = TreeS(L[1])], mit, lbl)
             ELSE Commit(K, V, [S0 EXCEPT ![y] = ForestS(L \o R)], mit, lbl)
(* the same value as both operands, both borrowed: two copies of it *)
OperSelf(o, s) ==
    LET q == slot[s].r
        n == Cardinality(DescSeq(kids, q))
        y == Min(FreeSlots)
        lbl == Lbl(o, s, <<y>>, s, 3)
    IN /\ On(o) /\ On("opself") /\ slot[s].k \in {"tree", "forest"} /\ FreeSlots # {}
       /\ (o = "div") => slot[s].k = "tree"
       /\ 2 * n <= Cardinality(FreeIds)
       /\ \E C \in {CopyMap(q)}, D \in {CopyAt(q, n)} :
          LET K == CopyKids(CopyKids(kids, C), D)
              V == CopyVal(CopyVal(val, C, Same), D, Same)
              L == [j \in DOMAIN q |-> C.to[q[j]]]
              R == [j \in DOMAIN q |-> D.to[q[j]]]
          IN IF o = "div" THEN Commit([K EXCEPT ![L[1]] = @ \o R], V, [slot EXCEPT ![y] = TreeS(L[1])], mit, lbl)
             ELSE Commit(K, V, [slot EXCEPT ![y] = ForestS(L \o R)], mit, lbl)
Neg(s, v) ==
    LET q == slot[s].r  x == Min(FreeSlots)
    IN /\ On("neg") /\ slot[s].k = "tree"
       /\ IF v = 0 THEN Commit(kids, val, [slot EXCEPT ![s] = ForestS(q)], mit, Lbl("neg", s, <<s>>, 0, 0))
          ELSE /\ FreeSlots # {} /\ CopyOK(q)
               /\ \E C \in {CopyMap(q)} :
                  Commit(CopyKids(kids, C), CopyVal(val, C, Same), [slot EXCEPT ![x] = ForestS(<<C.to[q[1]]>>)], mit,
                         Lbl("neg", s, <<x>>, 0, 1))
DivUnit(s, v) ==
    LET q == slot[s].r  x == Min(FreeSlots)
    IN /\ On("divu") /\ slot[s].k = "tree"
       /\ IF v = 0 THEN Commit(kids, val, slot, mit, Lbl("divu", s, <<s>>, 0, 0))
          ELSE /\ FreeSlots # {} /\ CopyOK(q)
               /\ \E C \in {CopyMap(q)} :
                  Commit(CopyKids(kids, C), CopyVal(val, C, Same), [slot EXCEPT ![x] = TreeS(C.to[q[1]])], mit,
                         Lbl("divu", s, <<x>>, 0, 1))

---------------------------------------------------------------------------
(* The user's own code panics: the v-th data item it is asked to clone ("xclone", "xclonef", operators), to map
   ("xcopyb", "xcopybf", "xrebuild"), to print ("xfmt"), to hash ("xhash") or to compare ("xcmp": a value with itself);
   the destructor of the v-th item to go ("xdrop"); an iterator of trees before its first ("xext").  What it was asked for is lost, with
   the values given away for it; everything else stays.  (Not said: whether the copies made so far are dropped.) *)
Readable(s, I) == IsRc(s) => ~\E i \in I : GuardMut(i)
XTree(s, t, o, v) ==
    /\ On(o) /\ t[2] # 0 /\ ~Busy(s) /\ v <= Count(kids, t[2]) /\ Readable(s, Desc(kids, t[2]))
    /\ Panics(0, Lbl(o, s, t[1], 0, v))
XForest(s, t, o, v) ==
    LET I == DescSeq(kids, ListOf(s, t[2]))
    IN /\ On(o) /\ ~Busy(s) /\ ~IsRc(s) /\ v <= Cardinality(I)
       /\ Panics(0, Lbl(o, s, t[1], 0, v))
XRead(s, o, v) ==
    /\ On(o) /\ slot[s].k \in {"tree", "forest", "rc"} /\ ~Busy(s) /\ v <= Cardinality(DescSeq(kids, slot[s].r))
    /\ Readable(s, DescSeq(kids, slot[s].r))
    /\ Panics(0, Lbl(o, s, <<>>, 0, v))
XRebuild(s, v) ==
    /\ On("xrebuild") /\ slot[s].k \in {"tree", "forest"} /\ ~Busy(s) /\ v <= Cardinality(DescSeq(kids, slot[s].r))
    /\ Panics(s, Lbl("xrebuild", s, <<>>, 0, v))
XExt(s, x) ==
    /\ On("xext") /\ IsRc(s) /\ s # x /\ slot[x].k = "forest"
    /\ Panics(x, Lbl("xext", s, <<>>, x, 0))
XDrop(s, v) ==
    LET S == [slot EXCEPT ![s] = None]
    IN /\ On("xdrop") /\ slot[s].k # "none" /\ ~Busy(s)
       /\ v <= Cardinality({i \in Ids : val[i] # 0} \ LiveIn(kids, S))
       /\ Panics(s, Lbl("xdrop", s, <<>>, 0, v))
(* The user's own code uses a handle (slot x) to a shared node while it runs: on the v-th item, in preorder, of what slot s
   leads to.  Copying: the nodes being copied cannot be changed, the attempt panics.  Printing, hashing, comparing (of a value
   with itself): the first child of another node (comparing: off the path to that item) is taken off and dropped; what is made of the rest is not
   said, but every reading ends, and the structure is as after the taking.  ("yclone"; "yfmt", "yhash", "ycmp") *)
RECURSIVE Pre(_, _)
Pre(K, q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Pre(K, K[Head(q)]) \o Pre(K, Tail(q))
YCopy(s, x, v) ==
    /\ On("yclone") /\ IsRc(s) /\ IsRc(x) /\ v <= Count(kids, slot[s].r[1]) /\ Readable(s, Desc(kids, slot[s].r[1]))
    /\ slot[x].r[1] \in Desc(kids, slot[s].r[1])
    /\ Panics(0, Lbl("yclone", s, <<>>, x, v))
YRead(o, s, x, b, v) ==      \* b = 1: the last child
    /\ On(o) /\ IsRc(s) /\ IsRc(x) /\ v <= Count(kids, slot[s].r[1]) /\ Readable(s, Desc(kids, slot[s].r[1]))
    /\ \E i \in {slot[x].r[1]} : /\ kids[i] # <<>> /\ ~GuardAny(i)
                              /\ Pre(kids, slot[s].r)[v] \notin (IF o = "ycmp" THEN Desc(kids, i) ELSE {i})
                              /\ Commit([kids EXCEPT ![i] = IF b = 0 THEN Tail(@) ELSE Front(@)], val, slot, mit, Lbl(o, s, <<b>>, x, v))
(* The destructor of the v-th item to go, as handle s is dropped, looks for the parent of x ("ydrop"): that of a node which outlives the
   one s led to is none; or it takes off the first child of x ("ydropm"). *)
YDrop(s, x, v) ==
    LET S == [slot EXCEPT ![s] = None]  i == slot[x].r[1]  live == LiveIn(kids, S)  p == ParentOf(kids, i)
    IN /\ On("ydrop") /\ IsRc(s) /\ IsRc(x) /\ s # x /\ v <= Cardinality({j \in Ids : val[j] # 0} \ live)
       /\ ~GuardMut(i) /\ \A q \in p : ~GuardMut(q) /\ (q \in live \/ q = slot[s].r[1])
       /\ Commit(kids, val, S, mit, Res(Lbl("ydrop", s, <<>>, x, v), IF p \cap live = {} THEN <<0>> ELSE [k \in 1..1 |-> val[CHOOSE q \in p : TRUE]]))
YDropM(s, x, v) ==
    LET S == [slot EXCEPT ![s] = None]  i == slot[x].r[1]
    IN /\ On("ydropm") /\ IsRc(s) /\ IsRc(x) /\ s # x /\ v <= Cardinality({j \in Ids : val[j] # 0} \ LiveIn(kids, S))
       /\ kids[i] # <<>> /\ ~GuardAny(i)
       /\ Commit([kids EXCEPT ![i] = Tail(@)], val, S, mit, Lbl("ydropm", s, <<>>, x, v))
XUnary(o, s, v) ==         \* -&a, &a / ()
    /\ On(o) /\ slot[s].k = "tree" /\ ~Busy(s) /\ v <= Count(kids, slot[s].r[1])
    /\ Panics(0, Lbl(o, s, <<>>, 0, v))
XOper(o, s, x, b, v) ==    \* b: which operands are borrowed, as v of Oper
    LET n == (IF b >= 2 THEN Cardinality(DescSeq(kids, slot[s].r)) ELSE 0) + (IF b % 2 = 1 THEN Cardinality(DescSeq(kids, slot[x].r)) ELSE 0)
        S == [q \in Slots |-> IF (q = s /\ b < 2) \/ (q = x /\ b % 2 = 0) THEN None ELSE slot[q]]
        op == IF o = "xsub" THEN "sub" ELSE "div"
    IN /\ On(o) /\ s # x /\ <<slot[s].k, slot[x].k>> \in OpTypes(op) /\ v <= n
       /\ Commit(kids, val, S, mit, [Lbl(o, s, <<b>>, x, v) EXCEPT !.e = 1])

---------------------------------------------------------------------------
(* A running iter_mut over list l of slot s: rem is what it has still to   *)
(* yield, got what it has yielded (and is still in the list).              *)
MitBegin(s, t) == /\ On("mbeg") /\ mit = NoMit /\ ~IsRc(s)
                  /\ Commit(kids, val, slot, [s |-> s, l |-> t[2], rem |-> ListOf(s, t[2]), got |-> <<>>],
                            Lbl("mbeg", s, t[1], 0, 0))
MitNext == LET lbl == Lbl("mnext", mit.s, <<>>, 0, 0)
           IN /\ On("mnext") /\ mit.s # 0
              /\ IF mit.rem = <<>> THEN Commit(kids, val, slot, mit, Res(lbl, <<0>>))
                 ELSE Commit(kids, val, slot, [mit EXCEPT !.rem = Tail(@), !.got = Append(@, Head(mit.rem))],
                             Res(lbl, <<1, val[Head(mit.rem)], Len(mit.rem) - 1>>))
MitEnd == On("mend") /\ mit.s # 0 /\ Commit(kids, val, slot, NoMit, Lbl("mend", mit.s, <<>>, 0, 0))
MitIns(j, x, next) ==
    LET o == IF next THEN "minsn" ELSE "minsp"
        q == ListOf(mit.s, mit.l)
        a == Pos(q, mit.got[j])
        u == SetList(mit.s, mit.l, InsAt(q, IF next THEN a+1 ELSE a, slot[x].r[1]))
    IN /\ On(o) /\ x # mit.s /\ slot[x].k = "tree"
       /\ Commit(u[1], val, [u[2] EXCEPT ![x] = None], mit, Lbl(o, mit.s, <<>>, x, j))
MitDet(j) ==
    LET i == mit.got[j]  x == Min(FreeSlots)
        u == SetList(mit.s, mit.l, Without(ListOf(mit.s, mit.l), i))
    IN /\ On("mdet") /\ FreeSlots # {}
       /\ Commit(u[1], val, [u[2] EXCEPT ![x] = TreeS(i)], [mit EXCEPT !.got = Without(@, i)],
                 Lbl("mdet", mit.s, <<>>, x, j))
MitPush(j, x) ==
    /\ On("mpush") /\ x # mit.s /\ slot[x].k = "tree"
    /\ Commit([kids EXCEPT ![mit.got[j]] = @ \o slot[x].r], val, [slot EXCEPT ![x] = None], mit,
              Lbl("mpush", mit.s, <<>>, x, j))
MitPop(j) ==
    LET q == kids[mit.got[j]]  x == Min(FreeSlots)  lbl == Lbl("mpop", mit.s, <<>>, x, j)
    IN /\ On("mpop") /\ FreeSlots # {}
       /\ IF q = <<>> THEN Commit(kids, val, slot, mit, Res(lbl, <<0>>))
          ELSE Commit([kids EXCEPT ![mit.got[j]] = Tail(q)], val, [slot EXCEPT ![x] = TreeS(Head(q))], mit, Res(lbl, <<1>>))
MitWrite(j) == On("mw") /\ WriteTo({mit.got[j]}, Lbl("mw", mit.s, <<>>, 0, j))

---------------------------------------------------------------------------
(* Shared nodes *)
ToRc(s) == /\ On("rc") /\ slot[s].k = "tree" /\ ~Busy(s)
           /\ Commit(kids, val, [slot EXCEPT ![s] = RcS(slot[s].r[1])], mit, Lbl("rc", s, <<>>, 0, 0))
(* Converting back is `unsafe`: the caller vouches that no other handle, iterator or borrow leads into
   the tree, and not to upgrade a weak handle as long as it is one ("intotreew"; the other families do without
   weak handles then).  On a node that has a parent it panics and the handle is consumed. *)
Alone(s) == LET D == Desc(kids, slot[s].r[1])
            IN \A q \in Slots \ {s} : slot[q].k \in ({"rc", "weak", "iterrc", "ref", "mut"} \ (IF "intotreew" \in Ops THEN {"weak"} ELSE {}))
                                        => Range(slot[q].r) \cap D = {}
Plain(i) == \E q \in Slots : slot[q].k \in {"tree", "forest", "into", "walkt", "walkf"} /\ \E j \in Range(slot[q].r) : i \in Desc(kids, j)
IntoTree(s) ==
    LET i == slot[s].r[1]  lbl == Lbl("intotree", s, <<>>, 0, 0)
    IN /\ (On("intotree") \/ On("intotreew")) /\ IsRc(s)
       /\ IF GuardMut(i) \/ ParentOf(kids, i) # {} THEN Panics(s, lbl)
          ELSE Alone(s) /\ Commit(kids, val, [slot EXCEPT ![s] = TreeS(i)], mit, lbl)
RcClone(s) == /\ On("hclone") /\ IsRc(s) /\ FreeSlots # {}
              /\ LET x == Min(FreeSlots)
                 IN Commit(kids, val, [slot EXCEPT ![x] = slot[s]], mit, Lbl("hclone", s, <<>>, x, 0))
RcNav(s, o) ==      \* "hfront", "hback", "hparent"
    LET i == slot[s].r[1]
        q == CASE o = "hfront" -> (IF kids[i] = <<>> THEN <<>> ELSE <<Head(kids[i])>>)
               [] o = "hback"  -> (IF kids[i] = <<>> THEN <<>> ELSE <<Last(kids[i])>>)
               [] OTHER        -> SetToSeq(ParentOf(kids, i))
        x == Min(FreeSlots)
        lbl == Lbl(o, s, <<>>, x, 0)
    IN /\ On(o) /\ IsRc(s) /\ FreeSlots # {}
       /\ IF GuardMut(i) THEN Panics(0, lbl)
          ELSE IF q = <<>> THEN Commit(kids, val, slot, mit, Res(lbl, <<0>>))
          ELSE Commit(kids, val, [slot EXCEPT ![x] = RcS(q[1])], mit, Res(lbl, <<1>>))
Downgrade(s) == /\ On("down") /\ IsRc(s) /\ FreeSlots # {}
                /\ LET x == Min(FreeSlots)
                   IN Commit(kids, val, [slot EXCEPT ![x] = WeakS(slot[s].r[1])], mit, Lbl("down", s, <<>>, x, 0))
Upgrade(s) == /\ On("up") /\ slot[s].k = "weak" /\ FreeSlots # {} /\ ("intotreew" \in Ops /\ slot[s].r # <<>> => ~Plain(slot[s].r[1]))
              /\ LET x == Min(FreeSlots)  lbl == Lbl("up", s, <<>>, x, 0)
                 IN IF slot[s].r = <<>> THEN Commit(kids, val, slot, mit, Res(lbl, <<0>>))
                    ELSE Commit(kids, val, [slot EXCEPT ![x] = RcS(slot[s].r[1])], mit, Res(lbl, <<1>>))
(* Iteration over shared children: the next child is fetched, and kept alive, one step ahead *)
IterRc(s) ==
    LET i == slot[s].r[1]  x == Min(FreeSlots)  lbl == Lbl("iterrc", s, <<>>, x, 0)
    IN /\ On("iterrc") /\ IsRc(s) /\ FreeSlots # {}
       /\ IF GuardMut(i) THEN Panics(0, lbl)
          ELSE Commit(kids, val, [slot EXCEPT ![x] = [Sl("iterrc", At(kids[i], 1)) EXCEPT !.n = Len(kids[i])]], mit, lbl)
NextSib(i) == IF ParentOf(kids, i) = {} THEN <<>>
              ELSE LET q == kids[CHOOSE p \in ParentOf(kids, i) : TRUE]  j == Pos(q, i)
                   IN At(q, j + 1)
IterRcNext(s) ==
    LET it == slot[s]  x == Min(FreeSlots)  lbl == Lbl("rnext", s, <<>>, x, 0)
    IN /\ On("rnext") /\ it.k = "iterrc" /\ FreeSlots # {}
       /\ IF it.n = 0 THEN Commit(kids, val, slot, mit, Res(lbl, <<0>>))
          ELSE IF it.r = <<>> THEN Commit(kids, val, [slot EXCEPT ![s].n = @ - 1], mit, Res(lbl, <<0>>))
          ELSE Commit(kids, val, [slot EXCEPT ![s].n = @ - 1,
                                              ![s].r = IF it.n = 1 THEN <<>> ELSE NextSib(it.r[1]),
                                              ![x] = RcS(it.r[1])], mit, Res(lbl, <<1>>))
IterRcClone(s) == /\ On("rclone") /\ slot[s].k = "iterrc" /\ FreeSlots # {}
                  /\ LET x == Min(FreeSlots)
                     IN Commit(kids, val, [slot EXCEPT ![x] = slot[s]], mit, Lbl("rclone", s, <<>>, x, 0))
(* Dynamic borrows of data; a borrow keeps (a clone of) the handle it was taken from *)
BorrowRef(s) ==
    LET i == slot[s].r[1]  x == Min(FreeSlots)  lbl == Lbl("ref", s, <<>>, x, 0)
    IN /\ On("ref") /\ IsRc(s) /\ FreeSlots # {}
       /\ IF GuardMut(i) THEN Panics(0, lbl)
          ELSE Commit(kids, val, [slot EXCEPT ![x] = Sl("ref", <<i>>)], mit, lbl)
BorrowMut(s) ==
    LET i == slot[s].r[1]  x == Min(FreeSlots)  lbl == Lbl("mut", s, <<>>, x, 0)
    IN /\ On("mut") /\ IsRc(s) /\ FreeSlots # {}
       /\ IF GuardAny(i) THEN Panics(0, lbl)
          ELSE Commit(kids, val, [slot EXCEPT ![x] = Sl("mut", <<i>>)], mit, lbl)
GuardWrite(s) == On("gw") /\ slot[s].k = "mut" /\ WriteTo({slot[s].r[1]}, Lbl("gw", s, <<>>, 0, 0))

---------------------------------------------------------------------------
(* Cursors (TreeWalk, ForestWalk).  p is the path to the current node from the list of top trees (<<>>: the
   traversal is over), n = 10 * up + kind, where kind says how the node is visited and up is set by a
   jump that failed: the next step then leaves the node's siblings behind. *)
VNone == 0
VBegin == 1
VEnd == 2
VLeaf == 3
RECURSIVE AtPath(_, _)
AtPath(q, p) == IF Len(p) = 1 THEN q[p[1]] ELSE AtPath(kids[q[p[1]]], Tail(p))
Cur(s) == AtPath(slot[s].r, slot[s].p)
SibsOf(s, p) == IF Len(p) = 1 THEN slot[s].r ELSE kids[AtPath(slot[s].r, Front(p))]
KindOf(i) == IF kids[i] = <<>> THEN VLeaf ELSE VBegin
OnNode(s, p) == [p |-> p, n |-> KindOf(AtPath(slot[s].r, p))]          \* arriving at a node
OnEnd(p) == IF Len(p) = 1 THEN [p |-> <<>>, n |-> VNone] ELSE [p |-> Front(p), n |-> VEnd]   \* leaving the siblings
HasSib(s, p, d) == Last(p) + d <= Len(SibsOf(s, p))
SibPath(p, d) == [p EXCEPT ![Len(p)] = @ + d]
Stepped(s) ==
    LET p == slot[s].p  kind == slot[s].n % 10
    IN IF p = <<>> THEN [p |-> <<>>, n |-> VNone]
       ELSE IF slot[s].n >= 10 THEN OnEnd(p)
       ELSE IF kind = VBegin THEN OnNode(s, Append(p, 1))
       ELSE IF HasSib(s, p, 1) THEN OnNode(s, SibPath(p, 1)) ELSE OnEnd(p)
SibJump(s, p, n, d) == IF HasSib(s, p, d) THEN OnNode(s, SibPath(p, d)) ELSE [p |-> p, n |-> 10 + (n % 10)]
(* what arriving at a visit reports: <<kind, data>> *)
Visit(s, c) == IF c.p = <<>> THEN <<VNone>> ELSE <<c.n % 10, val[AtPath(slot[s].r, c.p)]>>
MoveTo(s, c, lbl) == Commit(kids, val, [slot EXCEPT ![s].p = c.p, ![s].n = c.n], mit, lbl)
IsWalk(s) == slot[s].k \in WalkKinds
ToWalk(s) == /\ On("walk") /\ slot[s].k \in {"tree", "forest"} /\ ~Busy(s)
             /\ LET c == IF slot[s].r = <<>> THEN [p |-> <<>>, n |-> VNone] ELSE OnNode(s, <<1>>)
                IN Commit(kids, val, [slot EXCEPT ![s].k = IF @ = "tree" THEN "walkt" ELSE "walkf", ![s].p = c.p, ![s].n = c.n],
                          mit, Lbl("walk", s, <<>>, 0, 0))
UnWalk(s) == /\ On("unwalk") /\ IsWalk(s)
             /\ Commit(kids, val, [slot EXCEPT ![s] = Sl(IF slot[s].k = "walkt" THEN "tree" ELSE "forest", slot[s].r)],
                       mit, Lbl("unwalk", s, <<>>, 0, 0))
Forward(s) == On("wfwd") /\ IsWalk(s) /\ MoveTo(s, Stepped(s), Lbl("wfwd", s, <<>>, 0, 0))
WalkNext(s) == On("wnext") /\ IsWalk(s) /\ MoveTo(s, Stepped(s), Res(Lbl("wnext", s, <<>>, 0, 0), Visit(s, Stepped(s))))
ToParent(s) ==
    LET c == IF slot[s].p = <<>> THEN [p |-> <<>>, n |-> VNone] ELSE OnEnd(slot[s].p)
    IN On("wpar") /\ IsWalk(s) /\ MoveTo(s, c, Res(Lbl("wpar", s, <<>>, 0, 0), Visit(s, c)))
ToSib(s, v) ==
    LET p == slot[s].p  c == SibJump(s, p, slot[s].n, v)  lbl == Lbl("wsib", s, <<>>, 0, v)
    IN /\ On("wsib") /\ IsWalk(s)
       /\ IF p = <<>> THEN MoveTo(s, slot[s], Res(lbl, <<VNone>>))
          ELSE MoveTo(s, c, Res(lbl, IF c.n >= 10 THEN <<VNone>> ELSE Visit(s, c)))
ToChild(s, v) ==
    LET p == slot[s].p  lbl == Lbl("wch", s, <<>>, 0, v)
        q == Append(p, 1)
        c == SibJump(s, q, KindOf(AtPath(slot[s].r, q)), v)
    IN /\ On("wch") /\ IsWalk(s)
       /\ IF p = <<>> THEN MoveTo(s, slot[s], Res(lbl, <<VNone>>))
          ELSE IF kids[Cur(s)] = <<>> THEN MoveTo(s, [p |-> p, n |-> slot[s].n % 10], Res(lbl, <<VNone>>))
          ELSE MoveTo(s, c, Res(lbl, IF c.n >= 10 THEN <<VNone>> ELSE Visit(s, c)))
Revisit(s) ==
    LET p == IF slot[s].p = <<>> /\ slot[s].r # <<>> THEN <<1>> ELSE slot[s].p
    IN On("wrev") /\ IsWalk(s) /\ MoveTo(s, IF p = <<>> THEN slot[s] ELSE OnNode(s, p), Lbl("wrev", s, <<>>, 0, 0))

---------------------------------------------------------------------------
(* Start: structures to begin with, as nested sequences <<kind, <<trees>>>>; a tree is a sequence of child trees. *)
RECURSIVE Build(_, _)     \* Build(q, base): <<root ids, child lists of the nodes base+1, base+2, ...>>
Build(q, base) ==
    IF q = <<>> THEN <<<<>>, <<>>>>
    ELSE LET t == Head(q)
             sub == Build(t, base + 1)
             rest == Build(Tail(q), base + 1 + Len(sub[2]))
         IN <<<<base + 1>> \o rest[1], <<sub[1]>> \o sub[2] \o rest[2]>>
InitFrom(st) ==
    \E built \in {Build(Cat([j \in DOMAIN st |-> st[j][2]]), 0)} :
    LET roots(j) == LET before == Cat([a \in 1..(j-1) |-> st[a][2]])
                    IN SubSeq(built[1], Len(before) + 1, Len(before) + Len(st[j][2]))
    IN /\ kids = [i \in Ids |-> IF i <= Len(built[2]) THEN built[2][i] ELSE <<>>]
       /\ val  = [i \in Ids |-> IF i <= Len(built[2]) THEN i ELSE 0]
       /\ slot = [s \in Slots |-> IF s <= Len(st) THEN Sl(st[s][1], roots(s)) ELSE None]
       /\ mit  = NoMit
       /\ last = Lbl("init", 0, <<>>, 0, 0)
Init == \E st \in Starts : InitFrom(st)

Pick(S) == IF Few = 0 THEN S ELSE RandomSubset(IF Cardinality(S) < Few THEN Cardinality(S) ELSE Few, S)
Next ==
    \E nodes \in {[s \in Slots |-> NodesIn(s)]} : \E lists \in {[s \in Slots |-> ListsOf(s, nodes[s])]} :
    LET some(O) == O \cap Ops # {}
    IN
    \/ New \/ NewForest
    \/ \E s \in Slots : Drop(s)
    \/ some({"pushf","pushb"}) /\ \E s \in Slots, x \in Slots : slot[x].k = "tree"   /\ \E t \in Pick(lists[s]), b \in BOOLEAN : Push(s, t, x, b)
    \/ some({"popf","popb"}) /\ \E s \in Slots : \E t \in Pick(lists[s]), b \in BOOLEAN : Pop(s, t, b)
    \/ some({"prep","app"}) /\ \E s \in Slots, x \in Slots : slot[x].k = "forest" /\ \E t \in Pick(lists[s]), b \in BOOLEAN : Join(s, t, x, b)
    \/ \E s \in Slots, x \in Slots : Extend(s, x)
    \/ some({"insp","insn"}) /\ \E s \in Slots, x \in Slots : slot[x].k = "tree"   /\ \E t \in Pick(nodes[s]), b \in BOOLEAN : InsSib(s, t, x, b)
    \/ some({"det"}) /\ \E s \in Slots : \E t \in Pick(nodes[s]) : Detach(s, t)
    \/ \E s \in Slots : Abandon(s) \/ IntoIter(s) \/ IntoNext(s) \/ Rebuild(s)
    \/ some({"intobfs"}) /\ \E s \in Slots, v \in Pick(0..(MaxId + 1)) : IntoBfs(s, v)
    \/ some({"clone","copyb"}) /\ \E s \in Slots : \E t \in Pick(nodes[s]), o \in {"clone", "copyb"} : CopyTree(s, t, o)
    \/ some({"clonef","copybf"}) /\ \E s \in Slots : \E t \in Pick(lists[s]), o \in {"clonef", "copybf"} : CopyForest(s, t, o)
    \/ some({"w"}) /\ \E s \in Slots : \E t \in Pick(nodes[s]) : Write(s, t, 0)
    \/ some({"bfs","bfsc"}) /\ \E s \in Slots : \E t \in Pick(lists[s]), o \in {"bfs", "bfsc"} : ReadBfs(s, t, o)
    \/ some({"cmp"}) /\ \E s \in Slots, x \in Slots : \E t \in Pick(lists[s]), u \in Pick(lists[x]) : Compare(s, t, x, u)
    \/ some({"wb","wbc"}) /\ \E s \in Slots : \E t \in Pick(lists[s]), o \in {"wb", "wbc"}, v \in Pick(0..MaxId) : WriteBfs(s, t, o, v)
    \/ some({"wi"}) /\ \E s \in Slots : \E t \in Pick(lists[s]), v \in Pick(0..MaxId) : WriteIter(s, t, v)
    \/ some({"sub","div"}) /\ \E o \in {"sub", "div"}, s \in Slots, x \in Slots, v \in 0..3 : Oper(o, s, x, v)
    \/ \E o \in {"sub", "div"}, s \in Slots : OperSelf(o, s)
    \/ \E s \in Slots, v \in 0..1 : Neg(s, v) \/ DivUnit(s, v)
    \/ some({"xclone","xcopyb"}) /\ \E s \in Slots : \E t \in Pick(nodes[s]), o \in {"xclone", "xcopyb"}, v \in Pick(1..MaxId) : XTree(s, t, o, v)
    \/ some({"xclonef","xcopybf"}) /\ \E s \in Slots : \E t \in Pick(lists[s]), o \in {"xclonef", "xcopybf"}, v \in Pick(1..MaxId) : XForest(s, t, o, v)
    \/ some({"xfmt","xhash","xcmp"}) /\ \E s \in Slots, o \in {"xfmt", "xhash", "xcmp"}, v \in Pick(1..MaxId) : XRead(s, o, v)
    \/ some({"xrebuild"}) /\ \E s \in Slots, v \in Pick(1..MaxId) : XRebuild(s, v)
    \/ some({"xneg","xdivu"}) /\ \E s \in Slots, o \in {"xneg", "xdivu"}, v \in Pick(1..MaxId) : XUnary(o, s, v)
    \/ some({"xdrop"}) /\ \E s \in Slots, v \in Pick(1..MaxId) : XDrop(s, v)
    \/ \E s \in Slots, x \in Slots : XExt(s, x)
    \/ some({"yclone"}) /\ \E s \in Slots, x \in Slots, v \in Pick(1..MaxId) : YCopy(s, x, v)
    \/ some({"yfmt","yhash","ycmp"}) /\ \E o \in {"yfmt", "yhash", "ycmp"}, s \in Slots, x \in Slots, b \in (IF On("yback") THEN 0..1 ELSE {0}), v \in Pick(1..MaxId) : YRead(o, s, x, b, v)
    \/ some({"ydrop","ydropm"}) /\ \E s \in Slots, x \in Slots, v \in Pick(1..MaxId) : YDrop(s, x, v) \/ YDropM(s, x, v)
    \/ some({"xsub","xdiv"}) /\ \E o \in {"xsub", "xdiv"}, s \in Slots, x \in Slots, b \in 1..3, v \in Pick(1..MaxId) : XOper(o, s, x, b, v)
    \/ some({"mbeg"}) /\ \E s \in Slots : \E t \in Pick(lists[s]) : MitBegin(s, t)
    \/ MitNext \/ MitEnd
    \/ \E j \in DOMAIN mit.got : \/ MitDet(j) \/ MitPop(j) \/ MitWrite(j)
                                 \/ \E x \in Slots : MitPush(j, x) \/ \E b \in BOOLEAN : MitIns(j, x, b)
    \/ \E s \in Slots : ToRc(s) \/ IntoTree(s) \/ RcClone(s) \/ Downgrade(s) \/ Upgrade(s)
    \/ \E s \in Slots, o \in {"hfront", "hback", "hparent"} : RcNav(s, o)
    \/ \E s \in Slots : IterRc(s) \/ IterRcNext(s) \/ IterRcClone(s) \/ BorrowRef(s) \/ BorrowMut(s) \/ GuardWrite(s)
    \/ \E s \in Slots : \/ ToWalk(s) \/ UnWalk(s) \/ Forward(s) \/ WalkNext(s) \/ ToParent(s) \/ Revisit(s)
                       \/ \E v \in IF Few = 0 THEN 0..3 ELSE Pick(0..22) \cup RandomSubset(1, 0..MaxId) : ToSib(s, v) \/ ToChild(s, v)

Spec == Init /\ [][Next]_vars
NextB == (Depth = 0 \/ TLCGet("level") <= Depth) /\ Next     \* for bounded exploration
SpecB == Init /\ [][NextB]_vars
View == stv
=============================================================================
