SPECIFICATION Spec
CONSTANTS
  Steps = {3, 6, 9}
  Cells = {1, 2}
  Data = {1, 5}
  Mv = 777
  Ordered = TRUE
  Masks = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
