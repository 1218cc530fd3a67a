CONSTANTS Keys = {1, 2, 3} NameSet = {1, 2, 3, 4, 5} Depth = 10 WithAlt = FALSE WithOrphans = TRUE Trust = TRUE
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Prop
PROPERTY AllowedProp
VIEW View
CHECK_DEADLOCK FALSE
