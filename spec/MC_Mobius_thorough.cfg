INIT Init
NEXT Next
CONSTANTS
 Depth = 3
 Scenarios = TRUE
 Wide = TRUE
INVARIANTS Homomorphism Undo Powers Incidence TwoInversions CrossLaw Conform ConformMap Out OutData
CHECK_DEADLOCK FALSE
