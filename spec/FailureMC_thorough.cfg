CONSTANTS
    MaxRuns = 3
    Maps = 3
    WriteEarly = FALSE
    Swallow = FALSE
SPECIFICATION Spec
INVARIANTS Atomic Reported Tables
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
