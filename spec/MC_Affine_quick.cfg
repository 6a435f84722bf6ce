INIT Init
NEXT Next
CONSTANTS
 Depth = 2
 Wide = FALSE
 Scenarios = TRUE
INVARIANTS Homomorphism Undo Incidence AreaLaw Laws Conform ConformFig ConformComp Out OutPairs
CHECK_DEADLOCK FALSE
