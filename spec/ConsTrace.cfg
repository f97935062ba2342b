INIT Init
NEXT Next
VIEW View
POSTCONDITION Post
CHECK_DEADLOCK FALSE
