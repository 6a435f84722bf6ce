INIT Init
NEXT Next
CONSTANTS
 Depth = 6
 Scenarios = TRUE
INVARIANTS Sound Detects Out
CHECK_DEADLOCK FALSE
