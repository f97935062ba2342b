CONSTANT Fuel = 3000
INIT Init
NEXT Next
VIEW View
POSTCONDITION Post
CHECK_DEADLOCK FALSE
