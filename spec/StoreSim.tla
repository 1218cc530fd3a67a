----------------------------- MODULE StoreSim -----------------------------
(* Histories of StoreMC, printed to be executed with the real code            *)
EXTENDS StoreMC, Json
VARIABLE printed
SimInit == Init /\ printed = FALSE
SimStep == Next /\ UNCHANGED printed
SimPrint == /\ Len(h) = Depth /\ ~printed /\ printed' = TRUE /\ PrintT("HISTORY " \o ToJson(h)) /\ UNCHANGED vars
SimSpec == SimInit /\ [][SimStep \/ SimPrint]_<<vars, printed>>
============================================================================
