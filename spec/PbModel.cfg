SPECIFICATION MSpec
ACTION_CONSTRAINT Emit
VIEW MView
INVARIANTS ClausesHold WellFormed InWorkspace RoundTrip LongAgrees PrefixDiffers
PROPERTY Grows
CHECK_DEADLOCK FALSE
CONSTANTS
  Msgs <- TMsgs
  HeapSize <- THeap
