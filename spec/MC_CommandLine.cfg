SPECIFICATION Spec
INVARIANTS PlainIsPlain TurnedOff Case
PROPERTIES Stays NoOption
CHECK_DEADLOCK FALSE
