SPECIFICATION Spec
CONSTANTS
 Steps = {0,1,2,3,4,6}
 AggSteps = {1,2,3}
 Starts = {99,2,3,4}
 Aggs = {"instantaneous","none"}
 STypes = {"instant","avg","accum"}
 Units = {24}
 Halfs = {FALSE}
 Fzs = {FALSE}
 MaxMsgs = 4
 Switches = {0}
 Convs = {0}
 Cuts = {FALSE}
 MissSets = {{},{2},{3},{6}}
INVARIANTS TypeOK Ordered InPeriod NoLoss NoMade RefusedOnly Verbatim
CHECK_DEADLOCK FALSE
