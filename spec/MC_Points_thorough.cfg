INIT Init
NEXT Next
CONSTANTS
 Steps = 3
 Counts = {1, 2, 3, 5, 60, 120, 400, 1000}
 Seeds = {0, 1, 2, 3, 5, 7, 11, 13}
 Scenarios = TRUE
INVARIANTS Conform Long Out
CHECK_DEADLOCK FALSE
