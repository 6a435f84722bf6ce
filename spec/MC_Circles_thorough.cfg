INIT Init
NEXT Next
CONSTANTS
 Depth = 3
 Wide = TRUE
 Scenarios = TRUE
INVARIANTS Preserved Trichotomy Radical Radical3 Orthogonal PowerLaw OrthOnLaw Conform Out
CHECK_DEADLOCK FALSE
