SPECIFICATION Spec
POSTCONDITION Written
CHECK_DEADLOCK FALSE
