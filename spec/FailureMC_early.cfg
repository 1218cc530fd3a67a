CONSTANTS
    MaxRuns = 2
    Maps = 2
    WriteEarly = TRUE
    Swallow = FALSE
SPECIFICATION Spec
INVARIANTS Atomic Reported Tables
CHECK_DEADLOCK FALSE
