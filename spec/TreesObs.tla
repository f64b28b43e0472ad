------------------------------ MODULE TreesObs ------------------------------
(***************************************************************************)
(* What a user can see of a state of Trees: per slot its kind, a number,   *)
(* and one row per visible node.  The same projection is computed from the *)
(* real values by the executor in /verif/harness (src/obs.rs).             *)
(*   row: <<depth, data, degree, node_count, has_no_child, iter length,    *)
(*          parent's data (0: none), front's data (0), back's data (0)>>   *)
(*   a forest starts with a row for itself: depth 0, data 0.               *)
(*   a node whose data is mutably borrowed shows as <<depth, -1>>.         *)
(***************************************************************************)
EXTENDS Trees

DataOf(i) == IF GuardMut(i) THEN -1 ELSE val[i]
Cnt(i) == Count(kids, i)
RECURSIVE RowsBelow(_, _, _, _)     \* par: the parent's data, 0 if none; shared: parts of it may be mutably borrowed
RowsBelow(i, depth, shared, par) ==
    IF shared /\ GuardMut(i) THEN <<<<depth, -1>>>>
    ELSE LET q == kids[i]
             me == DataOf(i)
             sub == Cat([j \in DOMAIN q |-> RowsBelow(q[j], depth + 1, shared, me)])
         IN <<<<depth, val[i], Len(q), IF shared THEN Cnt(i) ELSE 1 + Len(sub), IF q = <<>> THEN 1 ELSE 0, Len(q), par,
                IF q = <<>> THEN 0 ELSE DataOf(Head(q)), IF q = <<>> THEN 0 ELSE DataOf(Last(q))>>>>
            \o sub
Rows(i, depth, shared) == RowsBelow(i, depth, shared, LET par == ParentOf(kids, i) IN IF par = {} THEN 0 ELSE DataOf(CHOOSE a \in par : TRUE))
ObsSlot(s) ==
    LET v == slot[s]
    IN CASE v.k = "none" -> <<"none", 0, <<>>>>
         [] Busy(s) -> <<"busy", Len(mit.rem), <<>>>>
         [] v.k = "tree" -> <<"tree", 0, Rows(v.r[1], 0, FALSE)>>
         [] v.k = "forest" -> <<"forest", 0,
                <<<<0, 0, Len(v.r), Cardinality(DescSeq(kids, v.r)), IF v.r = <<>> THEN 1 ELSE 0, Len(v.r), 0,
                    IF v.r = <<>> THEN 0 ELSE val[Head(v.r)], IF v.r = <<>> THEN 0 ELSE val[Last(v.r)]>>>>
                \o Cat([j \in DOMAIN v.r |-> Rows(v.r[j], 1, FALSE)])>>
         [] v.k = "into" -> <<"into", Len(v.r), <<>>>>
         [] v.k = "rc" -> <<"rc", IF GuardMut(v.r[1]) THEN -1 ELSE IF ParentOf(kids, v.r[1]) = {} THEN 1 ELSE 0,
                            Rows(v.r[1], 0, \E z \in Slots : slot[z].k = "mut")>>
         [] v.k = "weak" -> <<"weak", Len(v.r), <<>>>>
         [] v.k \in WalkKinds -> <<v.k, v.n % 10,      \* get(), get_parent() and all below the current node
                IF v.p = <<>> THEN <<>>
                ELSE <<<<0, IF Len(v.p) < 2 THEN 0 ELSE val[AtPath(v.r, Front(v.p))]>>>> \o Rows(Cur(s), 0, FALSE)>>
         [] v.k = "iterrc" -> <<"iterrc", v.n, <<>>>>
         [] OTHER -> <<v.k, val[v.r[1]], <<>>>>
Obs == [s \in Slots |-> ObsSlot(s)]

(* TLCFP is the lower half of a 64 bit fingerprint, linear in its argument: hashing on after the state
   brings out the upper half (hashing something before it would not) *)
Key == <<TLCFP(stv), TLCFP(<<stv, 11, 22, 33, 44>>)>>
Key2 == <<TLCFP(stv'), TLCFP(<<stv', 11, 22, 33, 44>>)>>
LblOut(l) == <<l.o, l.s, l.p, l.x, l.v, l.r, l.e, l.d>>
(* printed once per distinct state / once per transition (exhaustive runs) *)
PrintState == PrintT(ToJson(<<"S", Key, TLCGet("level"), Obs>>))
(* the same with the printed text of every slot *)
RECURSIVE Text(_)
Text(i) == ToString(val[i]) \o (IF kids[i] = <<>> THEN "" ELSE "( " \o FoldLeft(LAMBDA a, c : a \o Text(c) \o " ", "", kids[i]) \o ")")
TextOf(s) ==
    LET v == slot[s]
    IN CASE Busy(s) -> ""
         [] v.k = "tree" -> Text(v.r[1])
         [] v.k = "rc" -> IF \E i \in Desc(kids, v.r[1]) : GuardMut(i) THEN "" ELSE Text(v.r[1])
         [] v.k = "forest" -> IF v.r = <<>> THEN "()" ELSE "( " \o FoldLeft(LAMBDA a, c : a \o Text(c) \o " ", "", v.r) \o ")"
         [] OTHER -> ""
PrintStateT == PrintT(ToJson(<<"S", Key, TLCGet("level"), Obs, [s \in Slots |-> TextOf(s)]>>))
PrintStepT  == PrintT(ToJson(<<"T", TLCGet("level"), LblOut(last), Obs, [s \in Slots |-> TextOf(s)]>>))
PrintEdge  == PrintT(ToJson(<<"E", Key, Key2, LblOut(last')>>))
(* printed along each random behaviour (simulation runs) *)
PrintStep  == PrintT(ToJson(<<"T", TLCGet("level"), LblOut(last), Obs>>))

---------------------------------------------------------------------------
(* Invariants of the specification itself *)
RECURSIVE CountNodes(_, _)
Live == {i \in Ids : val[i] # 0}
TypeOK == /\ \A i \in Ids : Range(kids[i]) \subseteq Live /\ (val[i] = 0 => kids[i] = <<>>)
          /\ \A s \in Slots : slot[s].k \in {"none","tree","forest","into","rc","weak","iterrc","ref","mut","walkt","walkf"}
                              /\ Range(slot[s].r) \subseteq Live
CountNodes(i, seen) == Cardinality(Desc(kids, i))
(* every node has at most one place: one parent, or one owning slot if it is exclusively owned *)
OnePlace == \A i \in Live :
    /\ Cardinality(ParentOf(kids, i)) <= 1
    /\ Cardinality({s \in Slots : slot[s].k \in {"tree", "forest", "into"} \cup WalkKinds /\ i \in Range(slot[s].r)}) <= 1
    /\ \A s \in Slots : slot[s].k \in {"tree", "forest", "into"} \cup WalkKinds /\ i \in Range(slot[s].r) => ParentOf(kids, i) = {}
NoRepeat == /\ \A i \in Ids : IsInjective(kids[i])
            /\ \A s \in Slots : IsInjective(slot[s].r)
Acyclic == \A i \in Live : i \notin UNION {Desc(kids, c) : c \in Range(kids[i])}
Owned == Live = LiveIn(kids, slot)
BorrowsExclusive == \A s, q \in Slots : s # q /\ slot[s].k = "mut" /\ slot[q].k \in {"ref", "mut"} => slot[s].r # slot[q].r
MitOK == mit.s # 0 => /\ mit.rem = SelectSeq(ListOf(mit.s, mit.l), LAMBDA i : i \in Range(mit.rem))
                      /\ Range(mit.got) \subseteq Range(ListOf(mit.s, mit.l))
                      /\ Range(mit.got) \cap Range(mit.rem) = {}
(* Exclusively owned trees never contain a shared node's handle target (unless converted, see IntoTree) *)
WalkOK == \A s \in Slots : IsWalk(s) =>
    LET p == slot[s].p  kind == slot[s].n % 10
    IN /\ (p = <<>>) = (kind = VNone)
       /\ p # <<>> => \A j \in DOMAIN p : p[j] \in DOMAIN SibsOf(s, SubSeq(p, 1, j))
       /\ kind = VLeaf => kids[Cur(s)] = <<>>
       /\ kind \in {VBegin, VEnd} => kids[Cur(s)] # <<>>
Inv == WalkOK /\ TypeOK /\ OnePlace /\ NoRepeat /\ Acyclic /\ Owned /\ BorrowsExclusive /\ MitOK
(* Action properties *)
Conserve ==   \* a data item disappears exactly by being dropped, and appears only by construction or copying
    LET bag(V) == [v \in {V[i] : i \in Ids} \ {0} |-> Cardinality({i \in Ids : V[i] = v})]
        dr == last'.d
    IN (last'.o \notin {"new", "w", "wb", "wbc", "wi", "mw", "gw", "clone", "copyb", "clonef", "copybf", "sub", "div", "neg", "divu"}) =>
         \A v \in {val[i] : i \in Ids} \ {0} :
            Cardinality({i \in Ids : val[i] = v}) = Cardinality({i \in Ids : val'[i] = v}) + Cardinality({j \in DOMAIN dr : dr[j] = v})
PanicPure == last'.e = 1 => \A s \in Slots : slot'[s] = slot[s] \/ (s \in {last'.x, last'.s} /\ slot'[s].k = "none") \/ slot[s].k = "weak"
ConserveP == [][Conserve /\ PanicPure]_vars
=============================================================================
