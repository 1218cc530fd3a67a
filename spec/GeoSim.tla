------------------------------ MODULE GeoSim ------------------------------
(* Histories of GeoMC, printed to be executed with the real code              *)
EXTENDS GeoMC, Json
VARIABLE printed
SimInit == Init /\ printed = FALSE
SimStep == Next /\ UNCHANGED printed
SimPrint == /\ Len(h) = Depth /\ ~printed /\ printed' = TRUE /\ PrintT("HISTORY " \o ToJson(h)) /\ UNCHANGED vars
(* registrations are used before and after each action on them *)
Focus == (h' # h /\ h # << >>) => LET o == h[Len(h)] q == h'[Len(h')] IN
            (last \in {"user", "added"} /\ o.e > 0) => (q.op \in {"correct", "correctalt"} /\ q.e = o.e)
SimSpec == SimInit /\ [][SimStep \/ SimPrint]_<<vars, printed>>
============================================================================
