------------------------------ MODULE Rebuild ------------------------------
(***************************************************************************)
(* Building a tree or forest from a breadth first sequence of visits, each *)
(* announcing the degree and the number of descendants of its node - which *)
(* the caller may have made up.  What is required: the structure is built  *)
(* if the sizes are those of some tree or forest in breadth first order,   *)
(* and refused (a panic) otherwise.  The construction: a block of as many  *)
(* cells as announced is filled one by one, each node going to the first   *)
(* node that still waits for children.  Invariants: never beyond the       *)
(* block, never a cell left empty, and built exactly if required.          *)
(* Every finished construction is printed as a case for the real code.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Shapes
CONSTANTS Inputs,     \* set of <<kind, sizes announced for the whole (forests), visits>>; sizes are <<degree, descendants>>
          N           \* no input that fits has more nodes than this
VARIABLES kind, top, visits,
          k,          \* visits done
          par,        \* the cell whose children are being placed
          remains,    \* how many it still waits for
          kids,       \* the children (cells) of each cell written, from cell 0 on
          st
vars == <<kind, top, visits, k, par, remains, kids, st>>
Most == -1             \* stands for the greatest number there is

RECURSIVE Size(_)
SizeF(f) == FoldLeft(LAMBDA a, t : a + Size(t), 0, f)
Size(t) == 1 + SizeF(t)
RECURSIVE Sizes(_)    \* of the nodes of a forest, breadth first
Sizes(f) == IF f = <<>> THEN <<>> ELSE [j \in DOMAIN f |-> <<Len(f[j]), SizeF(f[j])>>] \o Sizes(FlattenSeq(f))
Good == TLCEval({<<<<Len(f), SizeF(f)>>, Sizes(f)>> : f \in ForestsTo(N)})
Fits == <<IF kind = "t" THEN <<1, Len(visits)>> ELSE top, visits>> \in Good

Cap == (IF kind = "t" THEN visits[1][2] ELSE top[2]) + 1       \* cells announced
ASSUME Most + 1 = 0
SizeAt(i) == IF kind = "t" THEN visits[i + 1] ELSE IF i = 0 THEN top ELSE visits[i]    \* announced for cell i
Init == /\ \E x \in Inputs : kind = x[1] /\ top = x[2] /\ visits = x[3]
        /\ par = 0 /\ kids = <<<<>>>>
        /\ IF (kind = "t" /\ visits = <<>>) \/ Cap = 0
           THEN st = "refused" /\ k = 0 /\ remains = 0
           ELSE st = "run" /\ k = (IF kind = "t" THEN 1 ELSE 0) /\ remains = SizeAt(0)[1]
RECURSIVE Waiting(_, _)      \* the first cell from p on that waits for children, looking no further than cell n
Waiting(p, n) == IF p >= n \/ SizeAt(p)[1] # 0 THEN p ELSE Waiting(p + 1, n)
Place == /\ st = "run" /\ k < Len(visits)
         /\ UNCHANGED <<kind, top, visits>>
         /\ LET c == Len(kids) IN
            IF remains = 0 \/ c >= Cap THEN st' = "refused" /\ UNCHANGED <<k, par, remains, kids>>
            ELSE /\ k' = k + 1 /\ st' = st
                 /\ kids' = Append([kids EXCEPT ![par + 1] = Append(@, c)], <<>>)
                 /\ LET r == IF remains = Most THEN Most ELSE remains - 1
                        p == IF r = 0 THEN Waiting(par + 1, c) ELSE par
                    IN par' = p /\ remains' = IF r = 0 THEN SizeAt(p)[1] ELSE r
AddUp(i) == SizeAt(i)[2] = FoldLeft(LAMBDA a, c : a + SizeAt(c)[2] + 1, 0, kids[i + 1])
Finish == /\ st = "run" /\ k = Len(visits)
          /\ st' = IF remains = 0 /\ Len(kids) = Cap /\ \A i \in 0..(Len(kids) - 1) : AddUp(i) THEN "ok" ELSE "refused"
          /\ UNCHANGED <<kind, top, visits, k, par, remains, kids>>
Next == Place \/ Finish

InBlock == st # "refused" => Len(kids) <= Cap /\ Len(kids) = k + (IF kind = "t" THEN 0 ELSE 1)
Exact == st # "run" => (st = "ok") = Fits
RECURSIVE ShapeAt(_)
ShapeAt(i) == [j \in DOMAIN kids[i + 1] |-> ShapeAt(kids[i + 1][j])]
Built == st = "ok" => Sizes(IF kind = "t" THEN <<ShapeAt(0)>> ELSE ShapeAt(0)) = visits

(* what can be seen of the structure, as in TreesObs; node labels are the numbers of their visits *)
Lab(i) == IF kind = "t" THEN i + 1 ELSE i
RECURSIVE Rows(_, _, _)
Row(i, d, p) == LET q == kids[i + 1] IN
    <<d, Lab(i), Len(q), Size(ShapeAt(i)) - (IF kind = "f" /\ i = 0 THEN 1 ELSE 0), IF q = <<>> THEN 1 ELSE 0, Len(q), p,
      IF q = <<>> THEN 0 ELSE Lab(q[1]), IF q = <<>> THEN 0 ELSE Lab(q[Len(q)])>>
Rows(i, d, p) == <<Row(i, d, p)>> \o FlattenSeq([j \in DOMAIN kids[i + 1] |-> Rows(kids[i + 1][j], d + 1, Lab(i))])
PrintCase == st # "run" => PrintT(ToJson(<<"C", IF kind = "t" THEN "visits tree" ELSE "visits forest", top, visits,
                                           IF st = "ok" THEN Rows(0, 0, 0) ELSE <<>>>>))

(* inputs: everything small, and everything near something that fits *)
Pairs(d, e) == (0..d) \X (0..e)
SeqsTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
Small(d, e, n) == ({"t"} \X {<<1, 0>>} \X SeqsTo(Pairs(d, e), n)) \cup ({"f"} \X Pairs(d, e) \X SeqsTo(Pairs(d, e), n - 1))
Near1(z) == {<<z[1] + a, z[2] + b>> : a \in {-1, 0, 1}, b \in {-1, 0, 1}} \cup {<<Most, z[2]>>, <<z[1], Most>>}
Near(v) == {v} \cup {[v EXCEPT ![i] = z] : i \in DOMAIN v, z \in UNION {Near1(v[j]) : j \in DOMAIN v}}
           \cup {RemoveAt(v, i) : i \in DOMAIN v} \cup {InsertAt(v, i, <<0, 0>>) : i \in 1..(Len(v) + 1)}
           \cup {[v EXCEPT ![i] = v[j], ![j] = v[i]] : i \in DOMAIN v, j \in DOMAIN v}
Almost(n) == UNION {{<<"t", <<1, 0>>, v>> : v \in Near(Sizes(<<t>>))} : t \in TreesTo(n)}
             \cup UNION {{<<"f", <<Len(f), SizeF(f)>>, v>> : v \in Near(Sizes(f))} \cup {<<"f", z, Sizes(f)>> : z \in Near1(<<Len(f), SizeF(f)>>)} : f \in ForestsTo(n)}
=============================================================================
