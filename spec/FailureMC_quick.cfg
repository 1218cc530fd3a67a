CONSTANTS
    MaxRuns = 2
    Maps = 2
    WriteEarly = FALSE
    Swallow = FALSE
SPECIFICATION Spec
INVARIANTS Atomic Reported Tables
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
