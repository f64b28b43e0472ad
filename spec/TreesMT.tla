------------------------------ MODULE TreesMT ------------------------------
(***************************************************************************)
(* Trees with threads.  Every slot is held by one thread (thr; 0: the      *)
(* first one), and an operation is carried out by the thread that holds    *)
(* its slots.  A cursor can be SENT to another thread; trees, forests and  *)
(* shared handles stay where they are made (they are not Send), but turn   *)
(* into cursors and back.  A cursor can also be PEEKed at: another thread  *)
(* reads through a shared reference while its holder reads it as well.     *)
(*                                                                         *)
(* What an operation does is exactly what Trees says, whichever threads    *)
(* hold the other slots (ThreadsDontShow); that is the property: the       *)
(* pieces of a tree may share memory, but threads must not notice.         *)
(***************************************************************************)
EXTENDS TreesObs
CONSTANT NT          \* number of threads
VARIABLE thr
Threads == 0..(NT - 1)
mtv == <<stv, thr>>

InitMT == Init /\ thr = [s \in Slots |-> 0]
(* the slots an operation uses: those in its label that held something before *)
Uses(l) == {z \in {l.s, l.x} \ {0} : slot[z].k # "none"}
By(l) == IF Uses(l) = {} THEN 0 ELSE thr[CHOOSE z \in Uses(l) : TRUE]
Hold(t) == thr' = [z \in Slots |-> IF slot'[z].k = "none" THEN 0 ELSE IF slot[z].k = "none" THEN t ELSE thr[z]]
Local == Next /\ (\A a, b \in Uses(last') : thr[a] = thr[b]) /\ Hold(By(last'))
Send(s, t) == /\ On("send") /\ slot[s].k \in WalkKinds /\ thr[s] # t
              /\ Commit(kids, val, slot, mit, Lbl("send", s, <<>>, 0, t))
              /\ thr' = [thr EXCEPT ![s] = t]
Peek(s, t) == /\ On("peek") /\ slot[s].k \in WalkKinds /\ thr[s] # t
              /\ Commit(kids, val, slot, mit, Res(Lbl("peek", s, <<>>, 0, t),
                    <<slot[s].n % 10>> \o (IF slot[s].p = <<>> THEN <<>> ELSE LET q == PreSeq(kids, Cur(s)) IN [j \in DOMAIN q |-> val[q[j]]])))
              /\ thr' = thr
NextMT == /\ (Depth = 0 \/ TLCGet("level") <= Depth)
          /\ (Local \/ \E s \in Slots, t \in Threads : Send(s, t) \/ Peek(s, t))
InvMT == Inv /\ \A s \in Slots : thr[s] \in Threads /\ (slot[s].k = "none" => thr[s] = 0)
(* only sending moves a slot, and only a cursor *)
Stays == \A s \in Slots : thr'[s] # thr[s] /\ slot[s].k # "none" /\ slot'[s].k # "none" => last'.o = "send" /\ slot[s].k \in WalkKinds
(* every step is a step of the sequential specification, or leaves everything but thr alone *)
ThreadsDontShow == [][Next \/ UNCHANGED stv]_mtv
StaysP == [][Stays]_mtv

KeyMT == <<TLCFP(mtv), TLCFP(<<mtv, 11, 22, 33, 44>>)>>
KeyMT2 == <<TLCFP(mtv'), TLCFP(<<mtv', 11, 22, 33, 44>>)>>
PrintStateMT == PrintT(ToJson(<<"S", KeyMT, TLCGet("level"), Obs>>))
PrintEdgeMT == PrintT(ToJson(<<"E", KeyMT, KeyMT2, LblOut(last')>>))
ViewMT == mtv
=============================================================================
