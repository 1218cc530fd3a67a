SPECIFICATION Spec
CONSTANTS
 MaxRows = 8
 MaxSplits = 10
 Workers = 4
 CollectBy = "index"
 OtherMaps = "target"
INVARIANTS Complete Independent Stored
CHECK_DEADLOCK FALSE
