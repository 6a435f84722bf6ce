INIT Init
NEXT Next
CONSTANTS
 Steps = 2
 Counts = {1, 2, 3, 60, 400}
 Seeds = {0, 1, 7}
 Scenarios = TRUE
INVARIANTS Conform Long Out
CHECK_DEADLOCK FALSE
