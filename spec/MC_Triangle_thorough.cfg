INIT Init
NEXT Next
CONSTANTS
 Depth = 3
 Wide = TRUE
 Scenarios = TRUE
INVARIANTS SidesLaw Heron IncLaw InLaw Feuerbach Euler SoddyLaw SteinerLaw Conform Out
CHECK_DEADLOCK FALSE
