SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
    L = 5
    E = 2
    Alphabet = {"a", "1"}
    MaxPrefix = 7
    MaxFirst = 12
    MaxStep = 5
    MaxMaps = 12
    Rule = "fixed"
CHECK_DEADLOCK FALSE
