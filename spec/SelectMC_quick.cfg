SPECIFICATION Spec
CONSTANTS
 Params = {"x","y"}
 Members = {1,2}
 Levels = {0}
 Dates = {0}
 Ends = {0,1,2}
 MaxLen = 3
 TStarts = {99,1,2}
 TEnds = {99,1,2}
 Aggs = {"none","average"}
INVARIANTS Irrelevant AnyOrder Exactly NoneOnly
CHECK_DEADLOCK FALSE
