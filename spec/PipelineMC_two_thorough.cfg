SPECIFICATION Spec
CONSTANTS
 Steps = {0,1,2,3,4,5,6,8}
 AggSteps = {1,2,3}
 Starts = {99,0,2,3}
 Aggs = {"accumulation","average","instantaneous","none"}
 STypes = {"instant","accum"}
 Units = {24}
 Halfs = {FALSE,TRUE}
 Fzs = {FALSE}
 MaxMsgs = 5
 Switches = {1,2,3,4,6}
 Convs = {0}
 Cuts = {FALSE}
 MissSets = {{},{3}}
INVARIANTS TypeOK Ordered InPeriod NoLoss NoMade RefusedOnly Windows SameAsSingle
CHECK_DEADLOCK FALSE
