INIT Init
NEXT Next
CONSTANTS
 Depth = 1
 Wide = FALSE
 Scenarios = TRUE
INVARIANTS SameCurve Position SignLaw KindLaw FiveLaw ShapeLaw Conform Out
CHECK_DEADLOCK FALSE
