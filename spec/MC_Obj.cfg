INIT Init
NEXT Next
CONSTANTS
 Values = {1, 2, 3, 4, 5}
 Scenarios = TRUE
INVARIANTS Conform Spoke Out
CHECK_DEADLOCK FALSE
