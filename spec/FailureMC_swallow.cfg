CONSTANTS
    MaxRuns = 2
    Maps = 2
    WriteEarly = FALSE
    Swallow = TRUE
SPECIFICATION Spec
INVARIANTS Atomic Reported Tables
CHECK_DEADLOCK FALSE
