SPECIFICATION Spec
CONSTANTS
 Params = {"x","y"}
 Members = {1,2}
 Levels = {0,5}
 Dates = {0,1}
 Ends = {0,1,3}
 MaxLen = 3
 TStarts = {99,1,2}
 TEnds = {99,1,3}
 Aggs = {"none","average","instantaneous"}
INVARIANTS Irrelevant AnyOrder Exactly NoneOnly
CHECK_DEADLOCK FALSE
