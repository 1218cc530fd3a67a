SPECIFICATION Spec
CONSTANTS
 MaxRows = 3
 MaxSplits = 3
 Workers = 2
 CollectBy = "completion"
 OtherMaps = "target"
INVARIANTS Complete Independent Stored
CHECK_DEADLOCK FALSE
