INIT Init
NEXT Next
CONSTANTS
 Depth = 8
 Phis10 = {0, 1, 2, 3, 5, 7, 9, 4, 6}
 Scenarios = TRUE
INVARIANTS Descartes Foci Neg Porism Preserves RadiusLaw Conform Out
CHECK_DEADLOCK FALSE
