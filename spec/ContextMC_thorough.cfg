SPECIFICATION Spec
CONSTANTS
  Options = {"a", "b", "c"}
  Values = {"0", "1", "2"}
  MaxArgs = 3
  Rule = "none"
  Alphabet = {"a", "=", " ", "\"", "{", "#"}
  MaxText = 5
INVARIANT Inv
INVARIANT Independent
INVARIANT AnyOrder
CHECK_DEADLOCK FALSE
