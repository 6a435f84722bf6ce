INIT Init
NEXT Next
CONSTANTS
 Span = 9
 Radii2 = {1,2,3,4,5,6,7,8,9,10,13,16,20}
 Scenarios = TRUE
INVARIANTS SwapLaw FixLaw SignLaw Conform Out
CHECK_DEADLOCK FALSE
