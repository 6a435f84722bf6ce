INIT Init
NEXT Next
CONSTANTS
 Depth = 5
 Scenarios = TRUE
INVARIANTS Sound Detects Out
CHECK_DEADLOCK FALSE
