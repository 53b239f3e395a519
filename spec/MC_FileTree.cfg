SPECIFICATION Spec
INVARIANTS AsWithout OnlyThere
CHECK_DEADLOCK FALSE
