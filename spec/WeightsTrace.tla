-------------------------- MODULE WeightsTrace --------------------------
(* Evaluates recorded interpolations (ndjson file named by environment variable TRACE) with Weights.tla *)
EXTENDS Weights, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in 1 .. Len(Records)
Next == /\ i > 0
        /\ LET v == Verdict(Records[i]) IN PrintT(<<"VERDICT", i, SetToSeq(v.clauses) \o <<"determined " \o ToString(v.determined)>> >>)
        /\ i' = -i
Spec == Init /\ [][Next]_i
=======================================================================
