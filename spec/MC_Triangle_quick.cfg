INIT Init
NEXT Next
CONSTANTS
 Depth = 2
 Wide = FALSE
 Scenarios = TRUE
INVARIANTS SidesLaw Heron IncLaw InLaw Feuerbach Euler SoddyLaw SteinerLaw Conform Out
CHECK_DEADLOCK FALSE
