SPECIFICATION Spec
CONSTANTS
 Steps = {0,1,2,3,4,5,6,8,9}
 AggSteps = {1,2,3,4}
 Starts = {99,0,1,2,3,4,5,6}
 Aggs = {"accumulation"}
 STypes = {"accum","instant"}
 Units = {1,24}
 Halfs = {FALSE}
 Fzs = {FALSE,TRUE}
 MaxMsgs = 5
 Switches = {0}
 Convs = {0}
 Cuts = {FALSE}
 MissSets = {{},{2},{3},{6},{2,3},{0}}
INVARIANTS TypeOK Ordered InPeriod NoLoss NoMade RefusedOnly Windows Telescope
CHECK_DEADLOCK FALSE
