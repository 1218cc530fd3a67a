SPECIFICATION Spec
CONSTANTS
 Steps = {0,1,2,3,4,5,6,7}
 AggSteps = {1,2,3,4}
 Starts = {99,0,1,2,3,4,5,6}
 Aggs = {"average"}
 STypes = {"instant","avg","accum"}
 Units = {24}
 Halfs = {FALSE,TRUE}
 Fzs = {FALSE}
 MaxMsgs = 5
 Switches = {0}
 Convs = {0}
 Cuts = {FALSE}
 MissSets = {{},{2},{3},{6},{2,3},{0}}
INVARIANTS TypeOK Ordered InPeriod NoLoss NoMade RefusedOnly Windows Bounded
CHECK_DEADLOCK FALSE
