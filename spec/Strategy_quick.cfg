SPECIFICATION Spec
CONSTANTS
 MaxRows = 5
 MaxSplits = 7
 Workers = 3
 CollectBy = "index"
 OtherMaps = "target"
INVARIANTS Complete Independent Stored
CHECK_DEADLOCK FALSE
