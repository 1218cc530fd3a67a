----------------------------- MODULE CachesSim -----------------------------
(* Histories of CachesMC, printed to be executed with the real code: at most two changes before an execution; executions may have faults *)
EXTENDS CachesMC, Json
VARIABLE printed
SimInit == Init /\ printed = FALSE
Changes == LET RECURSIVE N(_) N(i) == IF i = 0 \/ h[i].op # "change" THEN 0 ELSE 1 + N(i - 1) IN N(Len(h))
SimChange == Changes < (IF Len(h) < 2 THEN 0 ELSE 2) /\ \E f \in Changed : Change(f)
SimExecute == (Changes > 0 \/ Len(h) < 2) /\ Execute(Len(Components))
SimFault == Changes > 0 /\ Len(h) < Depth - 2 /\ \E n \in 1..(Len(Components) - 1) : Execute(n)
(* faults are rarer *)
SimStep == /\ (SimChange \/ SimExecute \/ (RandomElement(1..4) = 1 /\ SimFault)) /\ UNCHANGED printed
SimPrint == /\ Len(h) = Depth /\ ~printed /\ printed' = TRUE /\ PrintT("HISTORY " \o ToJson(h)) /\ UNCHANGED vars
SimSpec == SimInit /\ [][SimStep \/ SimPrint]_<<vars, printed>>
============================================================================
