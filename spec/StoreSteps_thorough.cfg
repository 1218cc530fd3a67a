CONSTANTS Procs = {1, 2, 3} Keys = {1, 2} NameSet = {1, 2, 3, 4} MaxRuns = 4 Excl = TRUE Tmp = TRUE CfgTmp = TRUE Lock = TRUE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
