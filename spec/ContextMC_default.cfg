SPECIFICATION Spec
CONSTANTS
  Options = {"a", "b", "c"}
  Values = {"0", "1", "2"}
  MaxArgs = 1
  Rule = "default"
  Alphabet = {"a", "=", " ", "\"", "{", "#"}
  MaxText = 1
INVARIANT Inv
INVARIANT Independent
INVARIANT AnyOrder
CHECK_DEADLOCK FALSE
