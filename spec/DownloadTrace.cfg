SPECIFICATION TraceSpec
CONSTANTS
 Files = {1}
 Procs = {1}
 Pieces = 2
 MaxRuns = 1
 Tmp = TRUE
 Once = FALSE
CHECK_DEADLOCK FALSE
