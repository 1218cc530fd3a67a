------------------------- MODULE StrategyTrace -------------------------
(* Executions of the same interpolation with different strategies: [rc, maps, runs], runs a sequence of [kind, rc, maps]:
   every one has to give the values of the first (that differ at most by one hundredth, the precision of output) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACE)
Abs(x) == IF x < 0 THEN -x ELSE x
Same(a, b) == /\ Len(a) = Len(b)
              /\ \A k \in 1 .. Len(a) : Len(a[k]) = Len(b[k]) /\ \A c \in 1 .. Len(a[k]) : Abs(a[k][c] - b[k][c]) <= 1
Clauses(r) == {r.runs[i].kind : i \in {j \in 1 .. Len(r.runs) : r.runs[j].rc # r.rc \/ ~Same(r.maps, r.runs[j].maps)}}
              \cup (IF r.rc # 0 THEN {"exitcode"} ELSE {})
VARIABLES i
Init == i \in 1 .. Len(Records)
Next == /\ i > 0
        /\ PrintT(<<"VERDICT", i, SetToSeq(Clauses(Records[i]))>>)
        /\ i' = -i
Spec == Init /\ [][Next]_i
========================================================================
