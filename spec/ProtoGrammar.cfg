SPECIFICATION Spec
ACTION_CONSTRAINT Emit
VIEW View
INVARIANTS Complete Balanced
CHECK_DEADLOCK FALSE
