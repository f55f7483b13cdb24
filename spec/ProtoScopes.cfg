SPECIFICATION Spec
ACTION_CONSTRAINT Emit
VIEW View
INVARIANTS Sound Innermost Qualified Builtin
PROPERTY Monotone
CHECK_DEADLOCK FALSE
