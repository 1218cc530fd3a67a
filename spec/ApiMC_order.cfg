SPECIFICATION Spec
CONSTANTS
  Steps = {3, 6}
  Cells = {1}
  Data = {1, 5}
  Mv = 777
  Ordered = FALSE
  Masks = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
