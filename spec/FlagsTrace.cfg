SPECIFICATION TSpec
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
