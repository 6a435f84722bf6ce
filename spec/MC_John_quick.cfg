INIT Init
NEXT Next
CONSTANTS
 Depth = 2
 Wide = FALSE
 Scenarios = TRUE
INVARIANTS Inside Balanced Smallest Conform Out
CHECK_DEADLOCK FALSE
