SPECIFICATION Spec
CONSTANTS
 Steps = {0,1,2,3,4,6}
 AggSteps = {1,2,3}
 Starts = {99,2,3}
 Aggs = {"accumulation","average","instantaneous","none"}
 STypes = {"instant","accum"}
 Units = {24}
 Halfs = {FALSE}
 Fzs = {FALSE}
 MaxMsgs = 4
 Switches = {0}
 Convs = {0,1,2,3}
 Cuts = {FALSE,TRUE}
 MissSets = {{},{2},{3},{6}}
INVARIANTS TypeOK Ordered InPeriod NoLoss NoMade RefusedOnly NoNegative Windows Verbatim Bounded
CHECK_DEADLOCK FALSE
