INIT Init
NEXT Next
CONSTANTS
 Depth = 1
 Wide = FALSE
 Scenarios = TRUE
INVARIANTS Preserved Sym FootLaw MeetLaw ExtentLaw Conform Out
CHECK_DEADLOCK FALSE
