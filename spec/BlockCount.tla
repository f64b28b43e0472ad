----------------------------- MODULE BlockCount -----------------------------
(***************************************************************************)
(* How the pieces of one contiguous block share its release.  A block of N *)
(* nodes has a counter of live nodes.  Pieces of it are held by threads,   *)
(* which use their nodes and release them; whoever brings the counter to   *)
(* zero frees the block.  The memory model is that of C11/Rust: seen[t]    *)
(* are the accesses that happen before what thread t does next; the        *)
(* counter carries the accesses released through it (a release sequence).  *)
(*                                                                         *)
(* Checked: the block is freed exactly once, after every use of it, by a   *)
(* thread all those uses happen before, and always in the end.  The        *)
(* constants switch off one ingredient each; with any of them off TLC      *)
(* finds the failure (see vt/tlc.py: the wrong variants must fail).        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, N,
          Rmw,      \* the counter is decremented in one indivisible step
          Release,  \* ... that publishes what the thread did before
          Acquire   \* ... and whoever reaches zero sees what was published
VARIABLES holder,   \* node -> thread
          state,    \* node -> "live", "dropped" (its data), "gone" (counted out)
          count, tmp, freed, seen, carried, uses, zero
vars == <<holder, state, count, tmp, freed, seen, carried, uses, zero>>
Nodes == 1..N
Init == /\ holder \in [Nodes -> Threads]
        /\ state = [n \in Nodes |-> "live"] /\ count = N /\ freed = 0
        /\ tmp = [t \in Threads |-> -1]               \* a counter value read, not yet written back
        /\ seen = [t \in Threads |-> {}] /\ carried = {} /\ uses = {}
        /\ zero = {}                                  \* threads about to free the block
Idle(t) == tmp[t] = -1 /\ t \notin zero
(* the last use of node n is the event n *)
Use(t, n) == /\ Idle(t) /\ holder[n] = t /\ state[n] = "live"
             /\ uses' = uses \cup {n} /\ seen' = [seen EXCEPT ![t] = @ \cup {n}]
             /\ state' = [state EXCEPT ![n] = "dropped"]
             /\ UNCHANGED <<holder, count, tmp, freed, carried, zero>>
Out(t, n, c) ==
    /\ count' = c
    /\ state' = [state EXCEPT ![n] = "gone"]
    /\ carried' = IF Release THEN carried \cup seen[t] ELSE carried
    /\ IF c = 0 THEN /\ zero' = zero \cup {t}
                     /\ seen' = IF Acquire THEN [seen EXCEPT ![t] = @ \cup carried'] ELSE seen
       ELSE UNCHANGED <<zero, seen>>
    /\ UNCHANGED <<holder, freed, uses>>
Decr(t, n) == Rmw /\ Idle(t) /\ holder[n] = t /\ state[n] = "dropped" /\ Out(t, n, count - 1) /\ tmp' = tmp
Load(t, n) == /\ ~Rmw /\ Idle(t) /\ holder[n] = t /\ state[n] = "dropped"
              /\ tmp' = [tmp EXCEPT ![t] = count] /\ UNCHANGED <<holder, state, count, freed, seen, carried, uses, zero>>
Store(t, n) == /\ ~Rmw /\ tmp[t] # -1 /\ holder[n] = t /\ state[n] = "dropped"
               /\ Out(t, n, tmp[t] - 1) /\ tmp' = [tmp EXCEPT ![t] = -1]
Free(t) == /\ t \in zero /\ freed' = freed + 1 /\ zero' = zero \ {t}
           /\ UNCHANGED <<holder, state, count, tmp, seen, carried, uses>>
(* a cursor is handed to another thread, which from then on sees what the giver did *)
Give(t, u, n) == /\ Idle(t) /\ t # u /\ holder[n] = t /\ state[n] = "live"
                 /\ holder' = [holder EXCEPT ![n] = u] /\ seen' = [seen EXCEPT ![u] = @ \cup seen[t]]
                 /\ UNCHANGED <<state, count, tmp, freed, carried, uses, zero>>
Next == \E t \in Threads : \/ Free(t)
                           \/ \E n \in Nodes : \/ Use(t, n) \/ Decr(t, n) \/ Load(t, n) \/ Store(t, n)
                                               \/ \E u \in Threads : Give(t, u, n)
Spec == Init /\ [][Next]_vars
Done == \A n \in Nodes : state[n] = "gone"
FreedOnce == freed + Cardinality(zero) <= 1
NotEarly == freed > 0 \/ zero # {} => Done
NoRace == \A t \in zero : uses \subseteq seen[t]
NotForgotten == Done /\ (\A t \in Threads : Idle(t)) => freed = 1
=============================================================================
