CONSTANTS Procs = {1, 2} Keys = {1, 2} NameSet = {1, 2, 3} MaxRuns = 3 Excl = TRUE Tmp = TRUE CfgTmp = TRUE Lock = FALSE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
