SPECIFICATION Spec
CONSTANTS
  Rule = "known"
  MaxWords = 6
  MaxEdits = 2
  Spellings = FALSE
INVARIANT Effect
INVARIANT Stable
CHECK_DEADLOCK FALSE
