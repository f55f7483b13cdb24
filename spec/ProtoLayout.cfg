SPECIFICATION Spec
ACTION_CONSTRAINT Emit
VIEW View
INVARIANTS Tiling Inert InertAtEnd NormalForm Composes Errors
CHECK_DEADLOCK FALSE
