SPECIFICATION Spec
CONSTANTS
 Files = {1, 2, 3}
 Procs = {1, 2}
 Pieces = 2
 MaxRuns = 3
 Tmp = FALSE
 Once = FALSE
INVARIANTS WholeInv
CHECK_DEADLOCK FALSE
