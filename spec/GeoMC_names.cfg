CONSTANTS C = 4 Depth = 5 Careful = FALSE
SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
