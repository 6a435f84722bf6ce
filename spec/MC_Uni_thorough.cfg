INIT Init
NEXT Next
CONSTANTS
 Max = 40
 Brute = 16
 Big = 100
 Scenarios = TRUE
INVARIANTS DetLaw Member Out
CHECK_DEADLOCK FALSE
