INIT Init
NEXT Next
CONSTANTS
 Depth = 2
 Scenarios = TRUE
 Wide = FALSE
INVARIANTS Homomorphism Undo Powers Incidence TwoInversions CrossLaw Conform ConformMap Out OutData
CHECK_DEADLOCK FALSE
