CONSTANTS C = 6 Depth = 7 Careful = TRUE
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Prop
PROPERTY AllowedProp
VIEW View
CHECK_DEADLOCK FALSE
