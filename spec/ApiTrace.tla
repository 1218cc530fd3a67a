----------------------------- MODULE ApiTrace -----------------------------
EXTENDS Api, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Init == i \in 1 .. Len(Records)
Next == /\ i > 0
        /\ PrintT(<<"VERDICT", i, SetToSeq(ApiClauses(Records[i].cli, Records[i].api, Records[i].tol))>>)
        /\ i' = -i
Spec == Init /\ [][Next]_i
===========================================================================
