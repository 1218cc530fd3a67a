-------------------------- MODULE InterpTrace --------------------------
(* Evaluates recorded interpolations (ndjson file named by environment variable TRACE) with Interp.tla *)
EXTENDS Interp, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in 1 .. Len(Records)
Next == /\ i > 0
        /\ PrintT(<<"VERDICT", i, SetToSeq(Clauses(Records[i]) \cup RelationClauses(Records[i]))>>)
        /\ i' = -i
Spec == Init /\ [][Next]_i
=======================================================================
