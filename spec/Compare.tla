------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* Equality, partial order, total order and text of labelled trees and     *)
(* forests, as functions of data and shape alone.  A labelled tree is      *)
(* <<label, <<children>>>>, a forest a sequence of trees.  Label NaN is     *)
(* comparable to nothing, itself included.                                 *)
(* Every initial state is one pair of structures; it is printed with the    *)
(* results the real code must give, however the two are stored.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Shapes
CONSTANTS Labels, NaN, TreeN, ForestN   \* pairs of trees of up to TreeN nodes, of forests of up to ForestN nodes
VARIABLE pair

RECURSIVE LabF(_)     \* all labellings of a forest shape
LabF(f) == IF f = <<>> THEN {<<>>}
           ELSE {<<<<l, k>>>> \o r : l \in Labels, k \in LabF(f[1]), r \in LabF(Tail(f))}
LForests(n) == UNION {LabF(f) : f \in ForestsTo(n)}
LTrees(n) == {f[1] : f \in UNION {LabF(<<t>>) : t \in TreesTo(n)}}

(* -1, 0, 1, or 2: not comparable *)
CmpL(a, b) == IF a = NaN \/ b = NaN THEN 2 ELSE IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE CmpT(_, _), CmpF(_, _)
CmpT(s, t) == LET c == CmpL(s[1], t[1]) IN IF c # 0 THEN c ELSE CmpF(s[2], t[2])
CmpF(p, q) == IF p = <<>> THEN (IF q = <<>> THEN 0 ELSE -1) ELSE IF q = <<>> THEN 1
              ELSE LET c == CmpT(p[1], q[1]) IN IF c # 0 THEN c ELSE CmpF(Tail(p), Tail(q))
RECURSIVE Has(_)
Has(f) == \E j \in DOMAIN f : f[j][1] = NaN \/ Has(f[j][2])     \* contains NaN
EqF(p, q) == p = q /\ ~Has(p)

RECURSIVE Text(_)
Text(t) == ToString(t[1]) \o (IF t[2] = <<>> THEN "" ELSE "( " \o FoldLeft(LAMBDA a, c : a \o Text(c) \o " ", "", t[2]) \o ")")
TextF(f) == IF f = <<>> THEN "()" ELSE "( " \o FoldLeft(LAMBDA a, c : a \o Text(c) \o " ", "", f) \o ")"

Init == \/ pair \in {"t"} \X {<<s>> : s \in LTrees(TreeN)} \X {<<s>> : s \in LTrees(TreeN)}
        \/ pair \in {"f"} \X LForests(ForestN) \X LForests(ForestN)
Next == FALSE /\ pair' = pair
(* what must hold of the specification itself *)
Laws == LET p == pair[2]  q == pair[3]  c == CmpF(p, q)  d == CmpF(q, p)
        IN /\ (c = 0) = EqF(p, q)
           /\ (c = 2) = (d = 2) /\ (c # 2 => d = -c)
           /\ ~Has(p) /\ ~Has(q) => c # 2
           /\ pair[1] = "t" => (Text(p[1]) = Text(q[1])) = (p = q)
           /\ (TextF(p) = TextF(q)) = (p = q)
PrintCase == PrintT(ToJson(<<"C", pair[1], pair[2], pair[3], IF EqF(pair[2], pair[3]) THEN 1 ELSE 0, CmpF(pair[2], pair[3]),
                         IF Has(pair[2]) \/ Has(pair[3]) THEN 0 ELSE 1,
                         IF pair[1] = "t" THEN Text(pair[2][1]) ELSE TextF(pair[2])>>))
(* the order is transitive (small sizes) *)
Trans == \A a, b, c \in LForests(2) : CmpF(a, b) = -1 /\ CmpF(b, c) = -1 => CmpF(a, c) = -1
ASSUME Trans
=============================================================================
