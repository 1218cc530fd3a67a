---------------------------- MODULE PipelineSim ----------------------------
(* Behaviours of PipelineMC, printed to be executed with the real code        *)
EXTENDS PipelineMC, Json
VARIABLE printed
SimInit == Init /\ printed = FALSE
SimStep == NextMC /\ UNCHANGED printed
SimPrint == /\ ph = "done" /\ ~printed /\ printed' = TRUE
            /\ PrintT("SCENARIO " \o ToJson(sc))
            /\ UNCHANGED pvars
SimSpec == SimInit /\ [][SimStep \/ SimPrint]_<<pvars, printed>>
=============================================================================
