SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
    L = 5
    E = 2
    Alphabet = {"a", "1"}
    MaxPrefix = 6
    MaxFirst = 2
    MaxStep = 2
    MaxMaps = 11
    Rule = "fixed"
CHECK_DEADLOCK FALSE
