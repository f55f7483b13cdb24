SPECIFICATION WSpec
ACTION_CONSTRAINT WEmit
INVARIANTS Reads Rejects Cut Canonical Memory Packed
CHECK_DEADLOCK FALSE
CONSTANTS
  Msgs <- TMsgs
  HeapSize <- THeap
