---------------------------- MODULE FailureTrace ----------------------------
(* Histories of executions in the same folders: [grids: number of grids, tables: tables existing at the beginning (number), execs], execs a
   sequence of [kind: "cli", "api" or "config", faults, maybe: phases having faults that may have no effect, create, rc,
   out: "same" (output folder as before), "complete" (the maps of the execution, all and only; other files as before), "both" or "other"; returned: maps returned by the API
   are the ones of the execution; extra: others are returned; tables: number of tables after; intact: other files as before] *)
EXTENDS Failure, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
Set(q) == {q[k] : k \in 1 .. Len(q)}
ExecClauses(x, o) ==
    (IF x.rc = o.rc THEN {} ELSE {"exitcode"})
    \cup (IF o.done /\ x.kind = "cli" THEN IF x.out \in {"complete", "both"} THEN {} ELSE {"incomplete"}
          ELSE IF x.out \in {"same", "both"} \/ ("write" \in Set(x.faults) \cup Set(x.maybe) /\ x.rc # 0) THEN {} ELSE {"written"})
    \cup (IF x.kind = "api" /\ (x.returned # o.done \/ x.extra) THEN {"returned"} ELSE {})
    \cup (IF x.tables = Cardinality(o.tables) THEN {} ELSE {"tables"})
    \cup (IF x.intact THEN {} ELSE {"intact"})
(* outcomes possible for an execution: faults of "maybe" phases may have effect or not; content of an input that is not one may be found
   as no messages, or found before looking for messages *)
Outcomes(x, gs, t) ==
    LET base == {Outcome(gs, Set(x.faults) \cup M, x.create, t) : M \in SUBSET Set(x.maybe)}
    IN base \cup (IF "read" \in Set(x.maybe) /\ "init" \notin Set(x.faults) THEN {Fails("read", t), Fails("select", t)} ELSE {})
    (* maps can be opened before looking for messages *)
    \cup (IF "maps" \in Set(x.faults) /\ "init" \notin Set(x.faults) THEN {Fails("maps", t)} ELSE {})
RECURSIVE History(_, _, _, _)
History(q, gs, t, bad) ==
    IF q = << >> THEN bad
    ELSE LET x == Head(q)
             os == Outcomes(x, gs, t)
             ok == {o \in os : ExecClauses(x, o) = {}}
             o == IF x.kind = "config" THEN [rc |-> 1, done |-> FALSE, tables |-> t]
                  ELSE IF ok # {} THEN CHOOSE o \in ok : TRUE ELSE CHOOSE o \in os : TRUE
         IN History(Tail(q), gs, o.tables, bad \cup ExecClauses(x, o))
Clauses(r) == History(r.execs, [g \in 1 .. r.grids |-> g], 1 .. r.tables, {})
VARIABLES i
TInit == i \in 1 .. Len(Records)
TNext == /\ i > 0
         /\ PrintT(<<"VERDICT", i, SetToSeq(Clauses(Records[i]))>>)
         /\ i' = -i
TSpec == TInit /\ [][TNext]_i
=============================================================================
