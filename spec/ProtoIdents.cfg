SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANTS Agree CName Survives Stable UpperStable Apart
CHECK_DEADLOCK FALSE
