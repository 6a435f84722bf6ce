INIT Init
NEXT Next
CONSTANTS
 Span = 2
 Second = 1
 Scenarios = TRUE
INVARIANTS Involution Involution1 Incidence ProductLaw InfPole Conform Out
CHECK_DEADLOCK FALSE
