SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Msgs <- TMsgs
  HeapSize <- THeap
