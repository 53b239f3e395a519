SPECIFICATION Spec
INVARIANTS TypedIsSelected SlipsAreNoticed Case
CHECK_DEADLOCK FALSE
