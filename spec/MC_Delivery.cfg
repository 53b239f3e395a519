SPECIFICATION Spec
INVARIANTS OneFileOpen NothingLost Case
PROPERTY Ends
CHECK_DEADLOCK FALSE
