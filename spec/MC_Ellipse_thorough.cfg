INIT Init
NEXT Next
CONSTANTS
 Depth = 2
 Wide = TRUE
 Scenarios = TRUE
INVARIANTS SameCurve Position SignLaw KindLaw FiveLaw ShapeLaw Conform Out
CHECK_DEADLOCK FALSE
