SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANTS First Nowhere Later
PROPERTY Elsewhere
CHECK_DEADLOCK FALSE
