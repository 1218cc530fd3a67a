SPECIFICATION Spec
CONSTANTS
  Rule = "dash"
  MaxWords = 4
  MaxEdits = 1
  Spellings = FALSE
INVARIANT Effect
INVARIANT Stable
CHECK_DEADLOCK FALSE
