------------------------------ MODULE Download ------------------------------
(* Downloads of a dataset (pyg2p -W): processes copying the files of a remote folder to the folder of the user, in pieces, with failures and
   kills at any moment. A file in the folder is None, Own (of the user, before any download), or the number of pieces it has.
     Tmp    files are written with another name, and renamed when complete (FALSE: in place)
     Once   an execution decides what is missing when it starts (FALSE: when it comes to each file)                                       *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Files, Procs, Pieces, MaxRuns, Tmp, Once
VARIABLES local, own, p, runs
vars == <<local, own, p, runs>>
None == -1
Own == -2
(* --- what must hold; also evaluated on states observed in the implementation *)
WholeFile(x) == x \in {None, Own, Pieces}
Whole(l) == \A f \in DOMAIN l : WholeFile(l[f])
Kept(l, o) == \A f \in o : l[f] = Own
Delivered(l) == \A f \in DOMAIN l : l[f] # None /\ WholeFile(l[f])
(* --- *)
Idle == [pc |-> "idle", todo |-> {}, f |-> 0, got |-> 0]
Init == /\ own \in SUBSET Files /\ local = [f \in Files |-> IF f \in own THEN Own ELSE None]
        /\ p = [q \in Procs |-> Idle] /\ runs = 0
Start(q) == /\ p[q].pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
            /\ p' = [p EXCEPT ![q] = [Idle EXCEPT !.pc = "next", !.todo = IF Once THEN {f \in Files : local[f] = None} ELSE Files]]
            /\ UNCHANGED <<local, own>>
Skip(q) == /\ p[q].pc = "next" /\ \E f \in p[q].todo : local[f] # None /\ p' = [p EXCEPT ![q].todo = @ \ {f}]
           /\ UNCHANGED <<local, own, runs>>
Begin(q) == /\ p[q].pc = "next"
            /\ \E f \in p[q].todo : /\ local[f] = None
                                    /\ p' = [p EXCEPT ![q] = [@ EXCEPT !.pc = "copy", !.f = f, !.got = 0, !.todo = @ \ {f}]]
                                    /\ local' = IF Tmp THEN local ELSE [local EXCEPT ![f] = 0]
            /\ UNCHANGED <<own, runs>>
Piece(q) == /\ p[q].pc = "copy" /\ p[q].got < Pieces
            /\ p' = [p EXCEPT ![q].got = @ + 1]
            /\ local' = IF Tmp THEN local ELSE [local EXCEPT ![p[q].f] = p[q].got + 1]
            /\ UNCHANGED <<own, runs>>
Complete(q) == /\ p[q].pc = "copy" /\ p[q].got = Pieces
               /\ p' = [p EXCEPT ![q].pc = "next"]
               /\ local' = [local EXCEPT ![p[q].f] = Pieces]
               /\ UNCHANGED <<own, runs>>
End(q) == /\ p[q].pc = "next" /\ p[q].todo = {} /\ p' = [p EXCEPT ![q].pc = "done"] /\ UNCHANGED <<local, own, runs>>
(* refused or interrupted connection, full disk, kill *)
Fail(q) == /\ p[q].pc \in {"next", "copy"} /\ p' = [p EXCEPT ![q] = Idle] /\ UNCHANGED <<local, own, runs>>
Leave(q) == /\ p[q].pc = "done" /\ p' = [p EXCEPT ![q] = Idle] /\ UNCHANGED <<local, own, runs>>
Next == \E q \in Procs : Start(q) \/ Skip(q) \/ Begin(q) \/ Piece(q) \/ Complete(q) \/ End(q) \/ Fail(q) \/ Leave(q)
Spec == Init /\ [][Next]_vars
TypeOK == local \in [Files -> (-2) .. Pieces]
WholeInv == Whole(local)
KeptInv == Kept(local, own)
(* success is only reported with the whole dataset *)
DoneInv == \A q \in Procs : p[q].pc = "done" => Delivered(local)
(* what is there stays *)
StaysProp == [][\A f \in Files : local[f] \in {Own, Pieces} => local'[f] = local[f]]_vars
=============================================================================
