SPECIFICATION Spec
CONSTANTS
  Rule = "known"
  MaxWords = 4
  MaxEdits = 1
  Spellings = TRUE
INVARIANT Effect
INVARIANT Stable
CHECK_DEADLOCK FALSE
