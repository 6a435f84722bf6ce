INIT Init
NEXT Next
CONSTANTS
 Span = 4
 Radii2 = {1, 2, 3, 4, 6, 10}
 Scenarios = TRUE
INVARIANTS SwapLaw FixLaw SignLaw Conform Out
CHECK_DEADLOCK FALSE
