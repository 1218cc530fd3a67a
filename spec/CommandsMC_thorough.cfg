SPECIFICATION Spec
CONSTANTS
  Rule = "known"
  MaxWords = 8
  MaxEdits = 3
  Spellings = FALSE
INVARIANT Effect
INVARIANT Stable
CHECK_DEADLOCK FALSE
