SPECIFICATION Spec
CONSTANTS
 Directional = TRUE
CHECK_DEADLOCK FALSE
