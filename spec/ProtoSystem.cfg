SPECIFICATION Spec
ACTION_CONSTRAINT Emit
VIEW View
INVARIANTS ClausesHold Alone Again OneMeaning
PROPERTY Untouched
CHECK_DEADLOCK FALSE
