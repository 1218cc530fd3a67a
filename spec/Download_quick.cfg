SPECIFICATION Spec
CONSTANTS
 Files = {1, 2, 3}
 Procs = {1, 2}
 Pieces = 2
 MaxRuns = 3
 Tmp = TRUE
 Once = FALSE
INVARIANTS TypeOK WholeInv KeptInv DoneInv
PROPERTY StaysProp
CHECK_DEADLOCK FALSE
