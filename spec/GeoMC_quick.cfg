CONSTANTS C = 4 Depth = 5 Careful = TRUE
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Prop
PROPERTY AllowedProp
VIEW View
CHECK_DEADLOCK FALSE
