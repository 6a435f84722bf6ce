INIT Init
NEXT Next
CONSTANTS
 Depth = 3
 Wide = TRUE
 Scenarios = TRUE
INVARIANTS Inside Balanced Smallest Conform Out
CHECK_DEADLOCK FALSE
