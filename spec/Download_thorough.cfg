SPECIFICATION Spec
CONSTANTS
 Files = {1, 2, 3}
 Procs = {1, 2, 3}
 Pieces = 3
 MaxRuns = 4
 Tmp = TRUE
 Once = FALSE
INVARIANTS TypeOK WholeInv KeptInv DoneInv
PROPERTY StaysProp
CHECK_DEADLOCK FALSE
