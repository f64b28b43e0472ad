------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks what the real code did against Trees: a log of the operations a  *)
(* program performed (chosen by the program, not by TLC), with the outcome *)
(* of each and what could be seen afterwards.  The log is followed step by *)
(* step; a step that Trees does not allow, or that Trees says ends in      *)
(* another way, violates one of the invariants below (or, if the operation *)
(* is not possible at all, deadlocks).                                     *)
(* Several logs are checked at once: tr is the log, l the next line of it. *)
(***************************************************************************)
EXTENDS TreesObs, IOUtils

CONSTANTS Logs            \* their file names
VARIABLES tr, l

Log == [t \in DOMAIN Logs |-> ndJsonDeserialize(Logs[t])]

RECURSIVE Below(_, _)
Below(i, p) == IF p = <<>> THEN i ELSE Below(kids[i][Head(p)], Tail(p))
IdAt(s, p) == IF slot[s].k = "forest" THEN (IF p = <<>> THEN 0 ELSE Below(slot[s].r[Head(p)], Tail(p))) ELSE Below(slot[s].r[1], p)
(* a program puts what it likes into a new node *)
NewWith(x, v) == /\ FreeIds # {} /\ x = Min(FreeSlots)
                 /\ Commit(kids, [val EXCEPT ![Min(FreeIds)] = v], [slot EXCEPT ![x] = TreeS(Min(FreeIds))], mit, Lbl("new", 0, <<>>, x, v))
Do(e) ==
    LET o == e.o  s == e.s  x == e.x  p == e.p  v == e.v
        t == <<p, IdAt(s, p)>>
        z == CHOOSE j \in DOMAIN p : p[j] = 0 /\ \A k \in 1..(j-1) : p[k] # 0
        a == SubSeq(p, 1, z - 1)  b == SubSeq(p, z + 1, Len(p))
    IN CASE o = "new" -> NewWith(x, v)
         [] o = "newf" -> NewForest
         [] o = "drop" -> Drop(s)
         [] o \in {"pushf", "pushb"} -> Push(s, t, x, o = "pushb")
         [] o \in {"popf", "popb"} -> Pop(s, t, o = "popb")
         [] o \in {"prep", "app"} -> Join(s, t, x, o = "app")
         [] o = "ext" -> Extend(s, x)
         [] o \in {"insp", "insn"} -> InsSib(s, t, x, o = "insn")
         [] o = "det" -> Detach(s, t)
         [] o = "aband" -> Abandon(s)
         [] o = "into" -> IntoIter(s)
         [] o = "inext" -> IntoNext(s)
         [] o = "rebuild" -> Rebuild(s)
         [] o = "intobfs" -> IntoBfs(s, v)
         [] o \in {"clone", "copyb"} -> CopyTree(s, t, o)
         [] o \in {"clonef", "copybf"} -> CopyForest(s, t, o)
         [] o = "w" -> Write(s, t, v)
         [] o \in {"bfs", "bfsc"} -> ReadBfs(s, t, o)
         [] o = "cmp" -> Compare(s, <<a, IdAt(s, a)>>, x, <<b, IdAt(x, b)>>)
         [] o \in {"wb", "wbc"} -> WriteBfs(s, t, o, v)
         [] o = "wi" -> WriteIter(s, t, v)
         [] o \in {"sub", "div"} -> IF s = x THEN OperSelf(o, s) ELSE Oper(o, s, x, v)
         [] o = "neg" -> Neg(s, v)
         [] o = "divu" -> DivUnit(s, v)
         [] o = "mbeg" -> MitBegin(s, t)
         [] o = "mnext" -> MitNext
         [] o = "mend" -> MitEnd
         [] o \in {"minsp", "minsn"} -> MitIns(v, x, o = "minsn")
         [] o = "mdet" -> MitDet(v)
         [] o = "mpush" -> MitPush(v, x)
         [] o = "mpop" -> MitPop(v)
         [] o = "mw" -> MitWrite(v)
         [] o = "rc" -> ToRc(s)
         [] o = "intotree" -> IntoTree(s)
         [] o = "hclone" -> RcClone(s)
         [] o \in {"hfront", "hback", "hparent"} -> RcNav(s, o)
         [] o = "down" -> Downgrade(s)
         [] o = "up" -> Upgrade(s)
         [] o = "iterrc" -> IterRc(s)
         [] o = "rnext" -> IterRcNext(s)
         [] o = "rclone" -> IterRcClone(s)
         [] o = "ref" -> BorrowRef(s)
         [] o = "mut" -> BorrowMut(s)
         [] o = "gw" -> GuardWrite(s)
         [] o = "walk" -> ToWalk(s)
         [] o = "unwalk" -> UnWalk(s)
         [] o = "wfwd" -> Forward(s)
         [] o = "wnext" -> WalkNext(s)
         [] o = "wpar" -> ToParent(s)
         [] o = "wsib" -> ToSib(s, v)
         [] o = "wch" -> ToChild(s, v)
         [] o = "wrev" -> Revisit(s)

TInit == /\ tr \in DOMAIN Logs /\ l = 1 /\ Init
TNext == \/ l <= Len(Log[tr]) /\ Do(Log[tr][l]) /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Log[tr]) /\ UNCHANGED <<vars, tr, l>>

E == Log[tr][l - 1]                     \* what has just been done
OutOK   == l > 1 => (last.e = E.e /\ last.x = E.x)
ResOK   == l > 1 => last.r = E.r
DropOK  == l > 1 => last.d = E.d
(* what is seen of a slot, taken apart: its kind; the nodes and their places; how many; who is related to whom *)
Cols(q, a, b) == [i \in DOMAIN q |-> SubSeq(q[i], a, b)]
Wide(q) == \A i \in DOMAIN q : Len(q[i]) > 2
SeenAs(P(_, _)) == l > 1 => \A k \in DOMAIN E.b : P(E.b[k][2], ObsSlot(E.b[k][1]))
KindOK  == SeenAs(LAMBDA a, b : a[1] = b[1] /\ a[2] = b[2])
ShapeOK == SeenAs(LAMBDA a, b : Cols(a[3], 1, 2) = Cols(b[3], 1, 2))
CountOK == SeenAs(LAMBDA a, b : Wide(a[3]) => Cols(a[3], 3, 6) = Cols(b[3], 3, 6))
NavOK   == SeenAs(LAMBDA a, b : Wide(a[3]) => Cols(a[3], 7, 9) = Cols(b[3], 7, 9))
SeenOK  == SeenAs(LAMBDA a, b : a = b)      \* nothing else
TextOK  == l > 1 => \A k \in DOMAIN E.t : E.t[k][2] # "" => TextOf(E.t[k][1]) = E.t[k][2]
=============================================================================
