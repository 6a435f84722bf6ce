INIT Init
NEXT Next
CONSTANTS
 Depth = 5
 Phis10 = {0, 1, 3, 5, 8}
 Scenarios = TRUE
INVARIANTS Descartes Foci Neg Porism Preserves RadiusLaw Conform Out
CHECK_DEADLOCK FALSE
