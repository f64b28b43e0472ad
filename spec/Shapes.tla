------------------------------- MODULE Shapes -------------------------------
(* All ordered tree shapes of a given size, as nested sequences: a tree is the *)
(* sequence of its child trees, a forest the sequence of its trees.            *)
EXTENDS Integers, Sequences
RECURSIVE ForestsN(_)
ForestsN(n) == IF n = 0 THEN {<<>>}
               ELSE UNION {{<<t>> \o f : t \in ForestsN(k - 1), f \in ForestsN(n - k)} : k \in 1..n}
TreesN(n) == ForestsN(n - 1)
TreesTo(n) == UNION {TreesN(k) : k \in 1..n}
ForestsTo(n) == UNION {ForestsN(k) : k \in 0..n}
Leaf == <<>>
Pair == <<Leaf>>             \* a node with one child
Vee  == <<Leaf, Leaf>>       \* a node with two children
(* Situations to start from: slot 1 holds a tree or forest of up to n nodes, slot 2 a partner. *)
T(t) == <<"tree", <<t>>>>
F(f) == <<"forest", f>>
One(n) == {<<T(t)>> : t \in TreesTo(n)} \cup {<<F(f)>> : f \in ForestsTo(n)}
OneTree(n) == {<<T(t)>> : t \in TreesTo(n)}
With(S, X) == {Append(s, x) : s \in S, x \in X}
Partners == {T(Leaf), T(Pair), F(<<>>), F(<<Leaf, Pair>>)}
TreePartners == {T(Leaf), T(Vee)}
(* Larger ones, for random behaviours. *)
Wide(n) == [j \in 1..n |-> Leaf]
RECURSIVE Chain(_)
Chain(n) == IF n = 1 THEN Leaf ELSE <<Chain(n - 1)>>
RECURSIVE Comb(_)      \* each node has a leaf, the next node, and a leaf below it
Comb(n) == IF n = 1 THEN Leaf ELSE <<Leaf, Comb(n - 1), Leaf>>
RECURSIVE Full(_, _)   \* k children each, n levels
Full(k, n) == IF n = 1 THEN Leaf ELSE [j \in 1..k |-> Full(k, n - 1)]
Broom(n, k) == <<Wide(k), Chain(n), Wide(k)>>
BigTrees == {T(Wide(20)), T(Chain(13)), T(Comb(7)), T(Full(2, 4)), T(Full(3, 3)), T(Broom(5, 7))}
BigForests == {F(Wide(18)), F(<<Chain(8), Wide(7)>>), F(<<Comb(4), Leaf, Full(2, 3)>>), F(Full(2, 4))}
Big == {<<x>> : x \in BigTrees \cup BigForests}
BigPartners == {T(Wide(9)), F(<<Pair, Wide(5), Chain(3), Leaf>>)}
NoStart == {<<>>}
=============================================================================
