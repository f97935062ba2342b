CONSTANTS NB = 2
 NR = 1
 MaxLevel = 3
 Paths = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS ConsistentInv StepwiseInv
PROPERTY KeepsProp
CHECK_DEADLOCK FALSE
