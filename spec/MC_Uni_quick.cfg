INIT Init
NEXT Next
CONSTANTS
 Max = 14
 Brute = 9
 Big = 40
 Scenarios = TRUE
INVARIANTS DetLaw Member Out
CHECK_DEADLOCK FALSE
