CONSTANTS K = 3
 N = 6
INIT Init
NEXT Next
INVARIANTS Agree Sound
CHECK_DEADLOCK FALSE
