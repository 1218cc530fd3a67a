SPECIFICATION Spec
CONSTANTS
 Steps = {0,1,2,3,4,5,6,8}
 AggSteps = {1,2,3,4}
 Starts = {99,0,1,2,3,4,5,6}
 Aggs = {"instantaneous","none"}
 STypes = {"instant","avg","accum"}
 Units = {24}
 Halfs = {FALSE}
 Fzs = {FALSE}
 MaxMsgs = 6
 Switches = {0}
 Convs = {0}
 Cuts = {FALSE}
 MissSets = {{},{2},{3},{6},{2,3},{0}}
INVARIANTS TypeOK Ordered InPeriod NoLoss NoMade RefusedOnly Verbatim
CHECK_DEADLOCK FALSE
