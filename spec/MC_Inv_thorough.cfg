INIT Init
NEXT Next
CONSTANTS
 Span = 4
 Second = 3
 Scenarios = TRUE
INVARIANTS Involution Involution1 Incidence ProductLaw InfPole Conform Out
CHECK_DEADLOCK FALSE
