------------------------------- MODULE Tuple -------------------------------
(***************************************************************************)
(* Tuple notations.                                                        *)
(* Part 1, what is required: the structure a nested tuple spells, its      *)
(* sizes, and the calls each traversal makes.  A tuple is given by its     *)
(* shape; its items are numbered 1, 2, ... in the order they are written.  *)
(* Part 2, the construction: visits arrive in preorder and are written     *)
(* into consecutive cells level by level, guided by one write position per *)
(* level (offsets).  Invariants say that each node gets the cell that      *)
(* breadth first order gives it, and nothing is overwritten.               *)
(* Every finished construction is printed as a case the real code must     *)
(* reproduce.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Shapes
CONSTANTS TreeShapes, ForestShapes       \* sets of shapes
VARIABLES kind, shape,     \* "t": a tree tuple, "f": a forest tuple
          rest,            \* visits still to come
          offs, depth, par,
          cell             \* what has been written: cell number -> <<item, parent's cell, children's cells>>
vars == <<kind, shape, rest, offs, depth, par, cell>>

RECURSIVE Size(_)
SizeF(f) == FoldLeft(LAMBDA a, t : a + Size(t), 0, f)
Size(t) == 1 + SizeF(t)
RECURSIVE Height(_)
HeightF(f) == Max({0} \cup {Height(f[j]) : j \in DOMAIN f})
Height(t) == 1 + HeightF(t)
RECURSIVE Level(_, _)          \* number of nodes n levels below the top trees
Level(f, n) == IF n = 0 THEN Len(f) ELSE FoldLeft(LAMBDA a, t : a + Level(t, n - 1), 0, f)
(* items in the order they are written: the label of tree j of a forest whose first item is b *)
Base(f, j, b) == b + SizeF(SubSeq(f, 1, j - 1))
(* calls: <<"B" branch | "L" leaf | "F" frame, item, degree, descendants>> *)
RECURSIVE Pre(_, _), Post(_, _)
PreF(f, b)  == FlattenSeq([j \in DOMAIN f |-> Pre(f[j], Base(f, j, b))])
PostF(f, b) == FlattenSeq([j \in DOMAIN f |-> Post(f[j], Base(f, j, b))])
Pre(t, b)  == IF t = <<>> THEN <<<<"L", b, 0, 0>>>>
              ELSE <<<<"B", b, Len(t), SizeF(t)>>>> \o PreF(t, b + 1) \o <<<<"F", 0, Len(t), SizeF(t)>>>>
Post(t, b) == IF t = <<>> THEN <<<<"L", b, 0, 0>>>>
              ELSE <<<<"F", 0, Len(t), SizeF(t)>>>> \o PostF(t, b + 1) \o <<<<"B", b, Len(t), SizeF(t)>>>>
(* what can be seen of the built structure, in preorder, as in TreesObs: p is the parent's item *)
RECURSIVE RowsT(_, _, _, _)
Row(d, b, q, n, p, c) == <<d, b, Len(q), n, IF q = <<>> THEN 1 ELSE 0, Len(q), p,
                           IF q = <<>> THEN 0 ELSE c, IF q = <<>> THEN 0 ELSE Base(q, Len(q), c)>>
RowsF(f, b, d, p) == FlattenSeq([j \in DOMAIN f |-> RowsT(f[j], Base(f, j, b), d, p)])
RowsT(t, b, d, p) == <<Row(d, b, t, Size(t), p, b + 1)>> \o RowsF(t, b + 1, d + 1, b)
Rows == IF kind = "t" THEN RowsT(shape[1], 1, 0, 0) ELSE <<Row(0, 0, shape, SizeF(shape), 0, 1)>> \o RowsF(shape, 1, 1, 0)

Tree == shape[1]
Calls == IF kind = "t" THEN Pre(Tree, 1) ELSE PreF(shape, 1)
TotalHeight == IF kind = "t" THEN Height(Tree) ELSE HeightF(shape)
TopCells == IF kind = "t" THEN 1 ELSE 0      \* a forest has a nameless root in cell 0

(* breadth first order of the items; a forest's nameless root comes first, as item 0 *)
RECURSIVE LevelItems(_, _, _)
LevelItems(f, b, n) == FlattenSeq([j \in DOMAIN f |-> IF n = 0 THEN <<Base(f, j, b)>> ELSE LevelItems(f[j], Base(f, j, b) + 1, n - 1)])
Bfs == LET whole == IF kind = "t" THEN <<>> ELSE <<0>>
       IN whole \o FlattenSeq([n \in 1..TotalHeight |-> LevelItems(shape, 1, n - 1)])

(* number of nodes at depth n of the structure, its (possibly nameless) root being at depth 0 *)
AtDepth(n) == IF n = 0 THEN 1 ELSE IF kind = "t" THEN Level(Tree, n - 1) ELSE Level(shape, n - 1)
RECURSIVE Before(_)
Before(n) == IF n = 0 THEN 0 ELSE Before(n - 1) + AtDepth(n - 1)
Levels == IF kind = "t" THEN TotalHeight ELSE TotalHeight + 1

Init == /\ \/ kind = "t" /\ shape \in {<<t>> : t \in TreeShapes}
           \/ kind = "f" /\ shape \in ForestShapes
        /\ offs = [n \in 0..(Levels - 1) |-> Before(n)]
        /\ depth = 1 /\ par = 0
        /\ cell = (0 :> <<IF kind = "t" THEN 1 ELSE 0, -1, <<>>>>)
        /\ rest = IF kind = "t" THEN Tail(Calls) ELSE Calls
(* a node is appended to its parent's children; a branch becomes the parent of what follows *)
Place(v) == LET i == offs[depth]
            IN cell' = (i :> <<v[2], par, <<>>>>) @@ [cell EXCEPT ![par][3] = Append(@, i)]
Leaf1 == /\ rest[1][1] = "L" /\ Place(rest[1])
         /\ offs' = [offs EXCEPT ![depth] = @ + 1] /\ UNCHANGED <<depth, par>>
Branch1 == /\ rest[1][1] = "B" /\ Place(rest[1])
           /\ par' = offs[depth] /\ depth' = depth + 1 /\ UNCHANGED offs
(* the end of a group: its parent is complete, and that one's parent is the parent again *)
Frame1 == /\ rest[1][1] = "F" /\ depth' = depth - 1
          /\ offs' = [offs EXCEPT ![depth - 1] = @ + 1]
          /\ par' = IF depth - 1 > 0 THEN offs[depth - 2] ELSE par
          /\ UNCHANGED cell
Next == /\ rest # <<>> /\ rest' = Tail(rest) /\ UNCHANGED <<kind, shape>>
        /\ (Leaf1 \/ Branch1 \/ Frame1)
Spec == Init /\ [][Next]_vars

Fresh == rest # <<>> /\ rest[1][1] # "F" => offs[depth] \notin DOMAIN cell /\ par \in DOMAIN cell
InBfsPlace == rest = <<>> => LET b == Bfs IN \A i \in DOMAIN cell : i + 1 \in DOMAIN b /\ cell[i][1] = b[i + 1]
(* parent/child links of the finished cells spell the shape again *)
RECURSIVE ShapeAt(_)
ShapeAt(i) == [j \in DOMAIN cell[i][3] |-> ShapeAt(cell[i][3][j])]
Finished == rest = <<>> => /\ DOMAIN cell = 0..(SizeF(shape) - TopCells)
                           /\ ShapeAt(0) = (IF kind = "t" THEN Tree ELSE shape)
                           /\ \A i \in DOMAIN cell : \A j \in DOMAIN cell[i][3] : cell[cell[i][3][j]][2] = i
(* the two traversal orders agree with each other and with the sizes *)
Laws == rest = <<>> => LET p == IF kind = "t" THEN Post(Tree, 1) ELSE PostF(shape, 1)
            c0 == Calls
            items(q) == SelectSeq(q, LAMBDA c : c[1] # "F")
            n == SizeF(shape)
            pre == items(c0)
        IN /\ Len(p) = Len(c0) /\ Range(p) = Range(c0)
           /\ Len(items(p)) = n
           /\ [j \in DOMAIN pre |-> pre[j][2]] = [j \in 1..n |-> j]
PrintCase == rest = <<>> => PrintT(ToJson(<<"C", IF kind = "t" THEN "tuple tree" ELSE "tuple forest", IF kind = "t" THEN Tree ELSE shape,
    IF kind = "t" THEN <<Len(Tree), SizeF(Tree)>> ELSE <<Len(shape), SizeF(shape)>>,
    TotalHeight,
    [n \in 1..(TotalHeight + 2) |-> IF kind = "t" THEN Level(Tree, n - 1) ELSE Level(shape, n - 1)],
    Calls, IF kind = "t" THEN Post(Tree, 1) ELSE PostF(shape, 1),
    Rows>>))

(* families of shapes *)
Flat(n) == [j \in 1..n |-> <<>>]
RECURSIVE TChain(_)
TChain(n) == IF n = 0 THEN <<>> ELSE <<TChain(n - 1)>>
RECURSIVE TComb(_)        \* nested groups that all end together, with a node after some of them
TComb(n) == IF n = 0 THEN <<>> ELSE <<<<>>, TComb(n - 1)>>
TWide(n) == <<<<>>, Flat(n), <<<<>>>>>>
AllTrees(n, m) == TreesTo(n) \cup {Flat(k) : k \in 0..m} \cup {TWide(k) : k \in 0..m} \cup {TChain(k) : k \in 0..7}
                  \cup {TComb(k) : k \in 0..6} \cup {<<TComb(k), <<>>, TComb(2)>> : k \in 0..4}
AllForests(n, m) == ForestsTo(n) \cup {Flat(k) : k \in 0..m} \cup {<<Flat(k), <<>>, Flat(k)>> : k \in {0, 1, 2, 8, 16, 31, 32}}
                  \cup {<<TComb(k), <<>>, TComb(2)>> : k \in 0..4}
=============================================================================
