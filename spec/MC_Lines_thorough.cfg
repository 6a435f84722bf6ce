INIT Init
NEXT Next
CONSTANTS
 Depth = 3
 Wide = TRUE
 Scenarios = TRUE
INVARIANTS Preserved Sym FootLaw MeetLaw ExtentLaw Conform Out
CHECK_DEADLOCK FALSE
