INIT Init
NEXT Next
CONSTANTS
 Faults = 1
 Variants = 2
 Total = 2
 Scenarios = TRUE
INVARIANTS Disjoint Law Conform Out
CHECK_DEADLOCK FALSE
