---------------------------- MODULE CachesTrace ----------------------------
(* Executions in a process (x) and in new ones (fresh), on the same files    *)
EXTENDS Caches, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Init == i \in 1 .. Len(Records)
Next == /\ i > 0
        /\ PrintT(<<"VERDICT", i, SetToSeq(Clauses(Records[i].x, Records[i].fresh))>>)
        /\ i' = -i
Spec == Init /\ [][Next]_i
============================================================================
