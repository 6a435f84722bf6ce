INIT Init
NEXT Next
CONSTANTS
 Depth = 1
 Wide = FALSE
 Scenarios = TRUE
INVARIANTS Preserved Trichotomy Radical Radical3 Orthogonal PowerLaw OrthOnLaw Conform Out
CHECK_DEADLOCK FALSE
